"""The properties, as they are published in properties.jsonl and MANIFEST.json.
`python3 -m vf.catalog` rewrites both.
"""
import json
import os

TRACE = 'TLA+ specification explored with TLC; traces of the real code validated against it'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=TRACE, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files,
              'mechanism': mechanism, 'note': note, 'technique': technique, 'observe': list(observe),
              'state': list(state)})


INTER = 'semantic_codec/interleaver/interleaver2d.py'
BITS = 'semantic_codec/architecture/bits.py'
CORR = 'semantic_codec/corruption/corruption.py'
CORRS = 'semantic_codec/corruption/corruptors.py'
RECUP = 'semantic_codec/metadata/recuperator.py'
COLL = 'semantic_codec/metadata/metadata_collector.py'
CAPS = 'semantic_codec/architecture/capstone_instruction.py'

prop('P01', 'Interleaving is lossless',
     'For any message (a list of 32-bit words), any number of packets, any interleaving order of them and any chunk '
     'width that divides the word, each packet carries, in order, exactly the chunks dealt to it turn by turn, and '
     'deinterleaving all of the packets gives the message back bit for bit, followed by zeros only. '
     'No error is then reported, even when the last round is incomplete or some packets carry nothing.',
     ['inputs', 'configurations'], 'all messages, packet counts, orders (permutations) and chunk widths 1..32 that divide 32',
     'The tests send three messages with friendly packet counts and never compare the contents of the packets; '
     'incomplete last rounds, single packets and other widths are not reached.',
     [INTER, BITS], [{'name': 'interleave / deinterleave', 'where': INTER}, {'name': 'BitQueue', 'where': BITS}],
     'The protocol is explored exhaustively for up to 4 packets in every order, every message size up to the bound and '
     'every loss; hundreds of real transmissions (every packet count to 20, all widths, random orders) are validated '
     'step by step. Bounded: messages of tens of words.', observe=['interleave', 'deinterleave'])

prop('P02', 'Lost packets damage their own bits and nothing else, and are reported',
     'Whichever packets are lost (missing or empty-handed), deinterleaving restores every bit that travelled in a '
     'received packet and leaves the lost ones at zero. The error list, in increasing order and without repetitions, has '
     'the place of every lost chunk up to the last round that the received packets show, and only places of lost packets. '
     'If all packets are lost it fails instead of inventing a message.',
     ['fault_sequences', 'inputs'], 'all subsets of packets lost, over all messages, orders and chunk widths',
     'One loss pattern of one message is tested, looking for nine of its errors: spurious errors, wrong surviving bits '
     'and the last round go unnoticed.',
     [INTER, BITS], [{'name': 'deinterleave', 'where': INTER}],
     'Same machine as P01: every loss of up to 4 packets is explored in the specification; hundreds of real lossy '
     'transmissions (random sets, bursts, all lost) are validated.', observe=['deinterleave'])

prop('P03', 'The interleaving order is the successive packing of every packet',
     'For any number of packets the order built is a permutation of them: the largest squares of a power of four '
     'packets first, each arranged by successive packing, their rows taken in turns; the flat form is the rows one after the other. Asked again it is the same, whatever was done to the first one. '
     'In a square, any burst of 4^k consecutive packets falls in 4^k different blocks.',
     ['configurations'], 'all packet counts >= 1 and square sizes',
     'The tests look at ten cells of two sizes and at one permutation.',
     [INTER], [{'name': 'build_2d_interleave_sp / sucesive_packing', 'where': INTER}],
     'The order is defined recursively in TLA+ and compared cell by cell with the code for every count up to 340 and '
     'a sample up to 1500 (thorough: all up to 1300, and around 4096).', observe=['build_2d_interleave_sp', 'sucesive_packing'])

SOLB = 'semantic_codec/solution/solution_builders.py'
SOLIO = 'semantic_codec/solution/solution_io.py'
QUAL = 'semantic_codec/solution/solution_quality.py'

prop('P04', 'The predicted loss is the actual loss',
     'For any interleaving order, chunk width, message size and set of lost packets, predict_corruption lists exactly '
     'the bits that travel in the lost packets: every chunk of a lost packet, also in the last incomplete round, as well '
     'formed entries (word, bit[, how many]) within the words, without repetitions. No loss, no entries. Asked again it tells the same, and alters nothing it is given.',
     ['configurations', 'fault_sequences'], 'all orders, widths that divide 32, sizes and sets of lost packets',
     'The tests look at three predictions, one of them with the wrong bits; nothing relates the prediction to what the '
     'interleaver really loses.',
     [INTER, CORR], [{'name': 'predict_corruption / predict_errors', 'where': INTER}],
     'The specification computes, from the dealing of P01, the bits each lost packet carries; hundreds of real '
     'predictions are compared with it. A chunk that reaches the last bit of a word is announced one bit off: known finding.',
     observe=['predict_corruption'])

prop('P05', 'The bit queue is first in first out',
     'Whatever the sequence of enqueues and dequeues, of any chunk widths 1..32 and positions in the word, a BitQueue '
     'gives the bits back in the order they went in, placed where they were asked for without touching other bits of '
     'the word, is empty exactly when nothing is left, and its bytes are the queued bits packed in order, then zeros.',
     ['histories', 'inputs'], 'all histories of enqueue, dequeue, get_bytes and is_empty with chunks that lie in their words',
     'Tests queue one fixed width; chunks that cross a word and mixed widths depend on the whole history.',
     [BITS], [{'name': 'BitQueue', 'where': BITS}],
     'The word-packing algorithm is checked to refine a plain queue for small words, exhaustively; behaviours generated '
     'by TLC from the specification and random histories are replayed in the real queue and validated.',
     observe=['BitQueue.enqueue', 'BitQueue.dequeue', 'BitQueue.get_bytes', 'BitQueue.is_empty'])

prop('P06', 'Candidates of lost packets are all the ways to fill the lost bits',
     'Whatever packets a PacketCorruptor loses, every instruction ends with exactly the words obtained by filling its '
     'lost bits in all the possible ways (of each of its former candidates), once each and at its own address. '
     'Hence the original is always a candidate and an instruction that lost nothing is unchanged.',
     ['inputs', 'configurations', 'fault_sequences'], 'all programs, orders, widths and sets of lost packets',
     'The tests count candidates for a single order and loss; a missing combination, a repeated one or an undamaged '
     'instruction changed would not be noticed.',
     [CORRS, CORR, INTER], [{'name': 'PacketCorruptor', 'where': CORRS}, {'name': 'corrupt_all_bits_tuples', 'where': CORR}],
     'The expected set is computed in TLA+ from the dealing itself, not from the prediction; hundreds of real corruptions '
     'are compared, up to 9 bits lost in a word. Inherits the known finding of P04.', observe=['PacketCorruptor.corrupt'])

prop('P07', 'Random corruption stays within what was asked, and reaches all of it',
     'corrupt_bits picks as many bits as asked, within the range, and returns all of their combinations once each, the '
     'original among them; part corruptors stay in their part; corrupt_program corrupts the percentage asked for '
     '(invalid ones are refused, nothing changed), keeps originals and addresses, and every instruction, bit count, bit and pair of them can be hit.',
     ['inputs', 'configurations'], 'all words, ranges, amounts, percentages, programs and random seeds',
     'Results are random: the tests only count candidates for a few fixed calls.',
     [CORR, CORRS], [{'name': 'corrupt_bits, corrupt_instruction, corrupt_program', 'where': CORR}, {'name': 'RandomCorruptor', 'where': CORRS}],
     'Each draw is judged by what it may be, never by the sequence of the generator; that everything can be hit is '
     'decided over hundreds of seeded draws (chance of a false alarm below 1e-9).',
     observe=['corrupt_bits', 'corrupt_instruction', 'corrupt_program', 'RandomCorruptor.corrupt'])

prop('P11', 'The forward enumeration keeps the original and numbers it',
     'For any recovered program whose addresses contain their originals, the enumeration visits addresses by increasing '
     'number of candidates, drops only candidates that the instructions still to be placed rule out, never the original '
     'nor the last of an address, and its number is the product of the places of the originals among the candidates left '
     'when visited; the size is its base 2 logarithm.',
     ['inputs', 'histories'], 'all programs, candidates and originals',
     'It is a stateful propagation: a count decremented twice drops an original many addresses later. One program is tested.',
     [SOLB], [{'name': 'ForwardConstraintSolutionEnumerator', 'where': SOLB}],
     'The propagation is explored exhaustively for small programs (original never dropped); hundreds of real runs over '
     'ARM instructions are validated against the same machine run by TLC, numbers compared modulo six primes or so.',
     observe=['ForwardConstraintSolutionEnumerator.build'])

prop('P12', 'The compact solution tells the original of every address',
     'The bit stream built holds, for each address with more than one candidate, by increasing number of candidates, the '
     'place of the original in just as many bits as its candidates need (ceiling of log2). Its size is their sum, and '
     'decoding it gives the originals back, even among others that read alike. No candidate is dropped.',
     ['inputs'], 'all programs, candidate counts and places of the original',
     'The test compares one size; indexes that need the last value of their width, or cross a word, are not decoded.',
     [SOLB, BITS], [{'name': 'ForwardConstraintSolutionBuilder', 'where': SOLB}],
     'TLA+ decodes the real stream of hundreds of programs with 1 to 20 candidates per address.',
     observe=['ForwardConstraintSolutionBuilder.build'])

prop('P14', 'Stored solutions come back, whole or not at all',
     'Reading a stored solution gives the originals and, for each address, the candidates up to the original in order, '
     'each at its address. A program that lacks an original is refused. A file cut at any byte, left by a refused or '
     'interrupted write, or that is something else, is reported and never taken for a solution.',
     ['inputs', 'crash_points'], 'all programs; all points where the file may be cut',
     'The tests store one program; the guarantees are about every program and every point of interruption.',
     [SOLIO], [{'name': 'SolutionWriter / SolutionReader', 'where': SOLIO}],
     'The file protocol with crashes is explored exhaustively; hundreds of real files are written, read, and cut at '
     'sampled points (every byte for small ones).', observe=['SolutionWriter.write', 'SolutionReader.read'])

prop('P15', 'Saved corrupted programs come back',
     'Saving a corrupted program and loading it gives the same addresses with the same candidates in the same order, '
     'each at its address, for corruptors and functions alike. Saving without a path is refused and a file cut '
     'at any byte is not taken for a program.',
     ['inputs', 'crash_points'], 'all programs; all points where the file may be cut',
     'The tests save one program of a corruptor and compare counts.',
     [CORR, CORRS], [{'name': 'save_corrupted_program / load_corrupted_program', 'where': CORR}],
     'Same file machine as P14; hundreds of real files, cut at sampled points.', observe=['save_corrupted_program', 'load_corrupted_program', 'Corruptor.save_corrupted_program'])

prop('P16', 'Quality figures are the count, bits, histogram and worst rank',
     'The number of solutions is the exact product of the candidates of every address, the size its base 2 logarithm, '
     'the bins count the addresses by number of candidates, and the depth is the worst relative place of the original '
     'among candidates sorted by decreasing score and then encoding, however close. Evaluating drops no candidate and never fails.',
     ['inputs'], 'all programs with any candidates, scores (ties included), null encodings and empty addresses',
     'The tests evaluate two tiny programs; ties, empty addresses and counts over 64 bits are not reached.',
     [QUAL], [{'name': 'SolutionQuality', 'where': QUAL}],
     'The figures are defined in TLA+ (product modulo primes, logarithms in millionths) and hundreds of real '
     'evaluations compared; the machine that accumulates them is explored for small programs.',
     observe=['SolutionQuality.report'])

META = 'semantic_codec/metadata/metadata_collector.py'
RULES = 'semantic_codec/metadata/probabilistic_rules/rules.py'
COUNTR = 'semantic_codec/metadata/probabilistic_rules/counting_rules.py'
RECMAIN = 'recover_program.py'

prop('P08', 'The metadata is the exact statistics of the program',
     'Collecting from a program counts, over its defined instructions only, how many have each condition and each operation and '
     'how many use each storage (register, flags or memory), gives the minimum, maximum and mean number of instructions between a write of a storage and its '
     'next read, and lists its distinct encodings in decreasing order. Collecting from a corrupted program counts the addresses having some candidate with '
     'each condition, operation or storage. The program is left untouched.',
     ['programs'], 'all instruction sequences, undefined instructions included, and all corrupted programs',
     'The tests look at a few counts of one program.',
     [META], [{'name': 'MetadataCollector, CorruptedProgramMetadataCollector', 'where': META}],
     'The incremental collection is explored for all short programs over a few storages against its declarative '
     'definition; hundreds of real collections are validated against the definition.',
     observe=['MetadataCollector.collect', 'CorruptedProgramMetadataCollector.collect'])

prop('P09', 'Recovery never eliminates the original',
     'Whatever bits were lost and whatever the functions are, recovering a corrupted program with the statistics of the original one keeps '
     'every defined original among the candidates of its address through every pass, only removes candidates (never adds, moves or empties an address '
     'with a defined original), and completes. Every score and factor assigned is a probability.',
     ['programs', 'fault_sequences'], 'all programs, candidates that contain the originals, function maps and numbers of passes',
     'The tests recover three programs; whether the original survives depends on the whole program and all its candidates.',
     [RECUP, META, RECMAIN], [{'name': 'ProbabilisticRecuperator', 'where': RECUP}, {'name': 'remove_bad_candidates_at_addr', 'where': RECMAIN}],
     'The elimination is explored exhaustively for all small programs of abstract instructions (the original always survives, a fixpoint is '
     'reached); hundreds of real recoveries are validated pass by pass.', observe=['ProbabilisticRecuperator.recover', 'remove_bad_candidates_at_addr'])

prop('P10', 'Each recovery pass removes exactly what the statistics rule out',
     'A pass removes a candidate exactly when it is undefined, when its condition, its operation or (unless it is a branch, push or pop) a storage '
     'it uses is not in the original program, or when another possible candidate of the address has a condition or operation possible at no more addresses '
     'than those the original has with it. The order is kept, the number reported is the number removed, and a pass that removes nothing ends the recovery.',
     ['programs', 'fault_sequences'], 'all programs and candidates that contain the originals',
     'The tests only look at the totals after the recovery of three programs.',
     [RECUP, META, RECMAIN], [{'name': 'ProbabilisticRecuperator', 'where': RECUP}, {'name': 'remove_bad_candidates_at_addr', 'where': RECMAIN}],
     'The set that survives each pass is computed in TLA+ and compared with the real one, pass by pass, for hundreds of programs.',
     observe=['ProbabilisticRecuperator.recover', 'remove_bad_candidates_at_addr'])

prop('P13', 'The constraint problem has exactly the matching programs as solutions',
     'The solutions of the problem built for a corrupted program are all the choices of one candidate per address whose counts of conditions, '
     'operations and storages are those of the original, each once. Hence the original is a solution; addresses without candidates are '
     'not in the problem, and undefined candidates count for nothing.',
     ['programs'], 'all corrupted programs small enough to be enumerated',
     'The tests solve one tiny program.',
     [SOLB], [{'name': 'ProblemBuilder / ExactFieldSumConstraint', 'where': SOLB}],
     'The constraint with propagation (partial assignments, forward checking) is explored over all small instances against the set of matching choices; '
     'hundreds of real problems are enumerated by TLC and compared.', observe=['ProblemBuilder.build', 'ExactFieldSumConstraint'])

PROB = 'semantic_codec/probability/probabilities.py'
HUFF = 'semantic_codec/compressor/huffman.py'
SHIFT = 'semantic_codec/compressor/shiftcompressor.py'
MODIF = 'semantic_codec/architecture/instruction_modifier.py'

prop('P22', 'Probabilities combine exactly',
     'The union of independent events has one minus the product of the complements, for any number of events in any order, their '
     'intersection has the product, and the uniform chance of a range is one over its length. '
     'A union of nothing is refused.',
     ['inputs'], 'all lists of probabilities',
     'The tests unite three lists.',
     [PROB], [{'name': 'indep_events_union, indep_intersection, uniform', 'where': PROB}],
     'Inclusion-exclusion is checked equal to the complement rule for all small lists; real results on binary fractions are compared exactly.',
     observe=['indep_events_union', 'indep_intersection', 'uniform'])

prop('P23', 'Huffman codes are prefix free, complete and optimal',
     'Encoding any table of frequencies gives each symbol one code, no code being the prefix of another and no prefix being unused, shortest first, with the '
     'least possible total size, which is the size reported. The frequency counter counts how many instructions have each value of a field, and '
     'lists them.',
     ['inputs'], 'all frequency tables and programs', 'No test computes a code or its size for more than one text.',
     [HUFF], [{'name': 'encode, huffman_size', 'where': HUFF}, {'name': 'InstructionPartFrequencyCounter', 'where': HUFF}],
     'The merging algorithm is explored for all small tables in any choice of ties against the least cost over all prefix codes; hundreds of real codes are validated.',
     observe=['encode', 'huffman_size', 'InstructionPartFrequencyCounter'])

prop('P24', 'Candidates are scored by their factors alone, as documented',
     'The final score is the product of the factors of the kind of instruction (branch, push or pop, or other); while removing it is 0 with a null factor and 1 with '
     'a forced condition or operation; what is not a probability is refused. Factors of condition, operation and storages are how many originals have it over the addresses '
     'where it is possible; that of a branch depends on where it goes; counting rules share what is left to place among the contenders.',
     ['programs', 'inputs'], 'all factors; all corrupted programs with their statistics',
     'The tests look at a few scores of one program.',
     [RECUP, COUNTR], [{'name': 'probabilistic_rules, probabilistic_rules_remove_step', 'where': RECUP}, {'name': 'CountingRule', 'where': COUNTR}],
     'Scores and factors are computed in TLA+ from the views of the candidates and compared with hundreds of real ones. The distance, read order and flow heuristics '
     'are only required to be probabilities (P09).', observe=['probabilistic_rules', 'ProbabilisticRecuperator.recover', 'CountingRule.recover'])

prop('P25', 'The compressors remove exactly the bits announced as lost',
     'The shift compressor removes from the program the bits announced in the errors and no other, joining the rest in order and filling the last byte with '
     'zeros. The swap compressor keeps the size and clears only the first bit of each error.',
     ['inputs'], 'all programs and lists of errors',
     'The tests compress one program with one error list.',
     [SHIFT], [{'name': 'ShiftCompressor, SwapCompressor', 'where': SHIFT}],
     'The chunk by chunk shifting is explored for all small inputs against the definition; hundreds of real compressions are compared.',
     observe=['ShiftCompressor.compress', 'SwapCompressor.compress'])

prop('P27', 'Bit and field edits touch their field and nothing else',
     'Copying, setting, testing and comparing ranges of bits act on exactly the bits of the range; editing a field of an instruction (condition, operation, registers, '
     'immediate) puts the value in its bits and leaves the rest. Reversing the byte order twice gives the same word. Ranges out of the word are refused.',
     ['inputs'], 'all words, ranges and values',
     'The tests check a few words.',
     [BITS, MODIF], [{'name': 'Bits', 'where': BITS}, {'name': 'InstructionModifier', 'where': MODIF}],
     'The mask arithmetic is checked exhaustively for words of 5 and 6 bits against the bit by bit definition; hundreds of real edits of 32-bit words are compared.',
     observe=['Bits', 'InstructionModifier'])

INST = 'semantic_codec/architecture/instruction.py'
CFG = 'semantic_codec/static_analysis/cfg.py'
DOM = 'semantic_codec/static_analysis/dominators.py'
SSA = 'semantic_codec/static_analysis/ssa.py'
VALUE = 'semantic_codec/static_analysis/value_dependency.py'
READERS = 'semantic_codec/architecture/disassembler_readers.py'

prop('P18', 'Instructions say what the ARM manual says about them',
     'For every well formed ARM word (other than system returns and calls, vector and floating point arithmetic, and multiple loads and stores of floating point), its condition and operation, the registers and memory it uses, writes (the first register named, all those loaded by a multiple load, none by a push) and reads, '
     'whether it changes the flags, jumps, links, pushes or pops, and the address a branch goes to, are those of its bits. An instruction is made of a number or its hexadecimal or decimal text, '
     'nothing else, and branch_to finds the first instruction at the address it jumps to.',
     ['inputs'], 'all well formed ARM words of the integer, media, exclusive, status, coprocessor, and floating point and vector transfer classes, conditions, registers and addresses',
     'The tests look at about twenty encodings.',
     [CAPS, INST], [{'name': 'CAPSInstruction', 'where': CAPS}, {'name': 'Instruction', 'where': INST}],
     'A decoder is written in TLA+ from the manual, its laws are explored by changing fields, and thousands of real views are compared with it.',
     observe=['CAPSInstruction', 'Instruction.branch_to'])

prop('P19', 'The control flow graph is that of the program',
     'Each defined instruction is in exactly one block, blocks are consecutive instructions of the same condition, and a jump only ends them. Control may go from an instruction to another through the graph (conditionals and unknown '
     'branches in between) exactly when it may in the program: to the next, skipping what is conditional, to the target of a branch, back after one with link, to the end when the target is unknown or out of the program. '
     'Removing the conditionals keeps the flow. Of a program only the first instructions may be asked for.',
     ['programs'], 'all programs, whose jumps go anywhere', 'The tests build the graphs of a few functions and look at some nodes.',
     [CFG, INST], [{'name': 'ARMControlFlowGraph.build', 'where': CFG}],
     'The construction (pending jumps, splits, conditionals) is specified and explored for all programs of 3 instructions against the flow, itself checked against a machine that executes programs; '
     'hundreds of real graphs are validated.', observe=['ARMControlFlowGraph.build', 'ARMControlFlowGraph.remove_conditionals'])

prop('P20', 'Dominators and their frontiers are right',
     'In any graph and from any root, the immediate dominator computed for each node that can be reached is the closest one that is in all its paths, the tree and the lists of '
     'children agree with it, and the dominance frontier of a node is the set of the nodes it does not strictly dominate having a predecessor it dominates. '
     'Nodes that cannot be reached have none. What was computed before (from other roots, with other edges) does not matter. Frontiers without dominators are refused and the graph is left untouched.',
     ['inputs'], 'all directed graphs, roots and orders of nodes and edges',
     'The tests look at the textbook graph and at one function.',
     [DOM, SSA], [{'name': 'build_dominator_tree', 'where': DOM}, {'name': 'build_dominance_frontier', 'where': SSA}],
     'The algorithm as coded is explored for all graphs of up to 4 nodes in all search orders against the definition by paths; all real graphs of up to 3 nodes '
     'and hundreds of larger ones are compared with the definition.', observe=['build_dominator_tree', 'build_dominance_frontier'])

prop('P21', 'Static single assignment names what is read after its last definition',
     'In the SSA form of any program each definition has a name of its own, what an instruction reads has the name of the last definition executed whatever the path taken, '
     'and phi functions are where definitions of a variable merge (iterated frontiers, when it is read before written in some block, unless dead), of the names that arrive there. '
     'The dependency graph relates exactly what is read to what is written. Unreachable code gets no names, and a form built before does not matter.',
     ['programs'], 'all programs and graphs', 'The tests look at a few names of a couple of functions.',
     [SSA, VALUE], [{'name': 'SSAFormBuilder', 'where': SSA}],
     'Placement and naming are explored for all graphs of 4 nodes and uses of a variable with a machine that runs program and names in lockstep; '
     'hundreds of real forms are judged by reaching definitions.', observe=['SSAFormBuilder.build'])

prop('P17', 'Disassemblies are read as they are written',
     'From any disassembly the readers give each instruction once, with its address and encoding, in the order of the file; the functions are those named, each with the instructions '
     'from its beginning up to that of the next one and the right limits; other lines are passed over and unsupported sets are refused. '
     'The program made from the functions has their instructions in order of address, and the ranges of the functions.',
     ['inputs'], 'all files in both formats', 'The tests count the instructions of two files and look at a few of them.',
     [READERS, RULES], [{'name': 'ElfioTextDisassembleReader.read', 'where': READERS}, {'name': 'TextDisassembleReader.read_functions', 'where': READERS},
                        {'name': 'from_functions_to_list_and_addr', 'where': RULES}],
     'Machines reading a line at a time are checked against what the lines of all small files say; hundreds of files are written, read by the real readers and judged line by line.',
     observe=['ElfioTextDisassembleReader.read', 'TextDisassembleReader.read', 'from_functions_to_list_and_addr'])

prop('P26', 'A recovery goes from the corrupted program to a stored solution',
     'A recovery corrupts a copy of the program given, scores the candidates with the statistics of the original and its functions, discards those with a null score and, where one is certain, '
     'those that are not, and repeats until nothing is discarded; then it weighs, constrains and stores. Each pass gets what the last one left. The stored solutions have the candidates up to the '
     'original at the beginning and at the end, and each report lists all of the candidates, best first, with right verdicts, figures and rules that misled. '
     'After each step it tells how many solutions are left. A program that lost an original is refused.',
     ['programs', 'histories'], 'all programs, corruptions and scores given pass after pass',
     'No test runs a recovery to the end, nor looks at the reports or the files it leaves.',
     [RECMAIN, 'semantic_codec/solution/solution_io.py'], [{'name': 'run_recovery', 'where': RECMAIN}, {'name': 'print_report', 'where': RECMAIN},
                        {'name': 'remove_bad_candidates_at_addr', 'where': RECMAIN}],
     'The recovery as a state machine is explored for every sound or unsound scoring of small programs, to its end; hundreds of real recoveries, with the real recuperator and with scripted scores, '
     'are recorded through the corruptor and recuperator they are given, and through the files they leave, and validated event by event.',
     observe=['run_recovery'])

prop('P28', 'A stored program lacks what its lost packets carry and nothing else',
     'From any disassembly store_packets writes two files: the whole program, word by word, and the same with the first bit of each chunk that travels in the first fifth of its packets cleared '
     '(packets of 16 bytes, as many as the program needs, whether it fills the last one or not). A source that is not there, or is not a program, and wrong arguments are refused and nothing is written.',
     ['inputs'], 'all programs, of any size',
     'No test runs it; programs that do not fill their last packet, three of those of the repository among them, made it fail.',
     ['store_packets.py'], [{'name': 'store_packets', 'where': 'store_packets.py'}, {'name': 'SwapCompressor.compress', 'where': 'semantic_codec/compressor/shiftcompressor.py'}],
     'Packets are filled chunk by chunk for all small sizes by a machine that checks none is overfull and what is lost; the files that the real program leaves for over a hundred sizes are judged bit by bit.',
     observe=['store_packets.py'])


prop('P29', 'Candidates are weighed by the instructions around them',
     'The flow factor of a candidate (all but those of the first address) follows how many defined candidates right before have its condition or modify the flags, and how many right after have its condition, '
     'with the chances of the model; the stack factor of a push at the beginning of a function tells whether it may pop the same registers at its end, pop at its end, or pop and branch inside; that of a pop, whether its function may begin '
     'pushing the same registers, or any; else it is one over the candidates. The distance factor of what neither branches, pushes nor pops is the chance that a storage it reads was written '
     'at the distances seen in the original. What is not possible gets a low probability, never zero.',
     ['programs'], 'all programs, candidates, functions and statistics',
     'The tests only check how many instructions are recovered in the end; a term of a formula hardly shows.',
     [RECUP, 'semantic_codec/metadata/probabilistic_model.py'], [{'name': '_compute_proper_cfg', 'where': RECUP}, {'name': '_compute_push_pop', 'where': RECUP},
                        {'name': '_compute_register_distance', 'where': RECUP}],
     'The counting loops are explored for all small neighbourhoods, functions and distances against the declarative weights and their laws; every factor of hundreds of real recoveries is compared with the weights, in millionths.',
     observe=['ProbabilisticRecuperator.recover'])


prop('P30', 'Interleaving in two dimensions keeps the cells of a packet apart',
     'The matrix of Blaum, Bruck and Vardy for data of any width and height (one may be inferred from the other, to the nearest whole number) tells the packet of each cell: each row goes through the packets in turns and is shifted '
     'from the one before by the whole number nearest to sqrt(2m-1), m being the number of packets. When m is (t^2+1)/2 for an odd t, any burst of t cells next to each other hits each packet once at most. '
     'Data of unknown width and height are refused.',
     ['configurations'], 'all sizes of message and packet, widths and heights',
     'No test calls it; cells before the diagonal had mirrored packets.',
     [INTER], [{'name': 'build_2d_interleave_matrix_blaum', 'where': INTER}],
     'That bursts of t cells never hit a packet twice is explored for every burst and t up to 11 (thorough: 31); real matrices for hundreds of sizes are compared cell by cell, and their cells pair by pair.',
     observe=['build_2d_interleave_matrix_blaum'])


prop('P31', 'Rules score candidates by their neighbours, and tell when nothing changes',
     'The flow rule gives each defined candidate of an address 0.7 times the share of those right before that have its condition, plus the same for those right after, less 0.6 times the share of those '
     'before that may change the flags if it is unconditional, plus 0.001 if it is a branch to an address of the program; undefined ones get 0. A rule reports an update exactly when a score it gives in that pass is new or other than before; '
     'each rule and pass has scores of its own, other addresses are left alone, and what a candidate scores is the sum.',
     ['programs', 'histories'], 'all programs, and all histories of rules applied and candidates discarded, pass after pass',
     'The tests apply a rule once to four instructions and look at which candidate comes first.',
     [RULES, COUNTR], [{'name': 'ControlFlowBehavior.recover', 'where': RULES}, {'name': 'Rule', 'where': RULES}, {'name': 'CountingRule.recover', 'where': COUNTR}],
     'The rule applied again and again while candidates around it are discarded is explored for all small neighbourhoods; hundreds of real histories are validated step by step.',
     observe=['ControlFlowBehavior.recover', 'CountingRule.recover', 'Instruction.score'])


prop('P32', 'Progress bars advance, end once at 100 % and then are quiet',
     'Told of each iteration, a progress bar of any total, first iteration, print distance (1 or more), decimals and length shows at once, then when its percentage is at least the distance above the last one shown, '
     'the labels given, the percentage of iterations done and a bar filled in that proportion. When no more iterations than the distance are left it shows 100 %, full, and a new line, once; nothing after. '
     'It never fails and always ends by the last iteration.',
     ['histories', 'configurations'], 'all totals, distances, formats and number of calls',
     'Nothing tests it; recoveries run it at each address, and a failure of it would end them.',
     ['semantic_codec/report/print_progress.py'], [{'name': 'TextProgressBar.progress', 'where': 'semantic_codec/report/print_progress.py'}],
     'The counter is explored for all totals to 25 (thorough: 150) and several distances; the output of hundreds of real bars is parsed and validated call by call.',
     observe=['TextProgressBar.progress'])

prop('P33', 'Drawings in dot have the nodes and edges of their graph',
     'Written in dot, a graph, digraph, hypergraph, flow graph or graph of dependencies gives a text of the language that has just its nodes and its edges (once each, from either end if they have no direction), '
     'with their attributes, labels and, if asked for, weights, whatever their names. Each block of a flow graph has a number and a text of its own, by its kind and its instructions (or those of the printer it was given), and is found by its number. Coloured hyperedges (up to 24) have different colours.',
     ['inputs', 'configurations'], 'all graphs and names of nodes with no backslash or end of line',
     'Tests write some drawings and look at none.',
     ['libs/dot/dotio.py', 'semantic_codec/static_analysis/cfg.py'], [{'name': 'write', 'where': 'libs/dot/dotio.py'}, {'name': 'CFGBlock.__str__', 'where': 'semantic_codec/static_analysis/cfg.py'}],
     'The writer is explored for all graphs of 3 nodes, directed or not, in all orders of their edges; drawings of hundreds of graphs are read back by the grammar of dot and compared with the graph.',
     observe=['write', 'write_hypergraph', 'ARMControlFlowGraph.get_dict_nodes', 'CFGBlock.__str__'])



NOT_APPLICABLE = []


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = [p for p in P if os.path.exists(os.path.join(root, 'vf', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in done:
            a = {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['id']
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                     'thorough_cmd': './check %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in done],
         'not_applicable': NOT_APPLICABLE,
         'notes': 'No hooks in /repo: every check drives the public API. TLA+ with TLC.'}
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
