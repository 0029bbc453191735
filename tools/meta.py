# Per-property text: properties.jsonl, MANIFEST.json and the table of DESIGN.md
# are generated from it (tools/gen_meta.py).
P = {}
def prop(id, title, statement, over, qtext, why, files, mech, oracle, note, observe=None, level='exploration', technique=None, state=None):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                 oracle=oracle, note=note, observe=observe or [], level=level, technique=technique, state=state or [])

prop('C01', 'Secure integers compute exact two\'s-complement arithmetic at every width',
 'For every bit width n and all operand values, whoever owns the operand bits (either party, public, or mixed), integer +, -, *, unary -, absolute value, / and % (non-zero divisor) give the two\'s-complement result modulo 2^n (division truncates toward zero, the remainder has the sign of the dividend), also when an operand is repeated or a result feeds further operations; word addition and subtraction with a carry or borrow in and out give the exact sum or difference. Modular exponentiation gives base^exponent mod q for every exponent, 0 <= base < 2^(n-1) and 2 <= q < 2^(n-1).',
 ['inputs', 'programs'], 'all widths (1..130 generated), all operand values, all operand origins, all expressions over them',
 'test/int.cpp samples random 32-bit pairs in one width; carries, signs and boundary values at other widths, repeated operands and chained operations are never reached.',
 ['emp-tool/circuits/integer.hpp', 'emp-tool/circuits/integer.h'],
 [('ripple-carry adder/subtractor, schoolbook multiplier, restoring divider', 'emp-tool/circuits/integer.hpp: add_full, sub_full, mul_full, div_full, condNeg, Integer::modExp')],
 'Reference arithmetic on multi-precision two\'s-complement values written in the harness (independent of the library), evaluated over a plain backend that supplies wire values; every operand pair of widths up to 9 (thorough: 13) is enumerated with a bit-sliced backend that evaluates 128 operand pairs at once.',
 'Enumerated to width 9 (thorough: 13), sampled beyond; widths up to 130.')

prop('C02', 'Integer comparison, logic, shifts, resizing and conversion are exact',
 'For every width and all values: the six comparisons decide signed order; bitwise operators and selection act bit by bit; shifts by a public amount (any amount >= 0) and by an integer value in [0, width) shift in zeros on the left shift and on the logical right shift; resizing truncates, zero-extends or sign-extends as asked; population count and leading-zero count are exact. Creating an integer from a native value or from memory and revealing it as a native number, as a string or as bits returns that value (reduced to the width).',
 ['inputs'], 'all widths, values, shift amounts (public and secret), target widths and native types',
 'test/int.cpp compares random 32-bit values; equal operands, sign boundaries, shifts at and beyond the width, odd widths and the individual conversions are not reached.',
 ['emp-tool/circuits/integer.hpp', 'emp-tool/circuits/integer.h', 'emp-tool/circuits/comparable.h', 'emp-tool/circuits/number.h'],
 [('subtraction-based comparison, barrel shifter, bit adders', 'emp-tool/circuits/integer.hpp'), ('derived comparisons', 'emp-tool/circuits/comparable.h')],
 'Reference functions on bit vectors; native round trips; every operand pair of small widths with the bit-sliced backend.',
 'Enumerated at small widths, sampled beyond; widths up to 130.')

prop('C03', 'Selection, conditional swap and sorting are correct permutations',
 'Selecting between two bits, integers or floats by a secret bit returns exactly the chosen one, and a conditional swap exchanges both or neither. Sorting any array of keys (with or without a payload array, any length, ties included, ascending or descending, the direction public or secret) leaves the keys ordered and each payload with its key, losing and inventing nothing.',
 ['inputs'], 'all lengths (0..70 generated), all key and payload values, ties, directions; every 0/1 vector up to length 18 (thorough: 22)',
 'No test sorts; test/bit.cpp covers single gates on random values.',
 ['emp-tool/circuits/swappable.h', 'emp-tool/circuits/number.h', 'emp-tool/circuits/bit.hpp'],
 [('bitonic network for arbitrary lengths', 'emp-tool/circuits/number.h: sort, bitonic_sort, bitonic_merge'), ('conditional swap', 'emp-tool/circuits/swappable.h')],
 'Multiset and order check against std::stable_sort keys; 0/1 principle exhaustive for lengths up to 18 (thorough: 22); truth tables of all gates for all owners.',
 'The network is oblivious, so the 0/1 enumeration settles keys-only sorting for those lengths; other lengths are sampled.')

prop('C04', 'Single-precision arithmetic matches IEEE 754 bit for bit',
 'For operands that are zero, normal or infinite, secure float addition, subtraction, multiplication and division return exactly the round-to-nearest-even IEEE 754 single-precision result whenever that result is zero, normal or infinite, and ==, < and <= decide the IEEE order. Squaring and square root, negation, absolute value, selection and conversion to and from native floats are exact as well, square and square root for every bit pattern (any NaN counts as NaN).',
 ['inputs'], 'all pairs of 32-bit patterns in the stated domain',
 'test/float.cpp uses uniformly random values with a tolerance of 1e-3..1e-5, so rounding, cancellation, sticky bits and the ends of the range are not seen.',
 ['emp-tool/circuits/float32.h', 'emp-tool/circuits/float32.hpp', 'emp-tool/circuits/float32_add.cpp', 'emp-tool/circuits/float32_sub.cpp', 'emp-tool/circuits/float32_mul.cpp', 'emp-tool/circuits/float32_div.cpp', 'emp-tool/circuits/float32_eq.cpp', 'emp-tool/circuits/float32_le.cpp', 'emp-tool/circuits/float32_leq.cpp', 'emp-tool/circuits/float32_sq.cpp', 'emp-tool/circuits/float32_sqrt.cpp'],
 [('straight-line gate lists', 'emp-tool/circuits/float32_*.cpp')],
 'The processor\'s own single-precision arithmetic in round-to-nearest; operands biased to equal exponents, cancellation, halfway cases, all-ones significands and range ends.',
 'Operand pairs sampled (10^8 per quick run with the bit-sliced backend); square and square root are enumerated over all 2^32 patterns by the thorough check and over a fixed spread of them by the quick one.')

prop('C05', 'Elementary functions are accurate over their whole range',
 'For finite zero or normal arguments the secure sin(pi x), cos(pi x), 2^x, e^x, ln x and log2 x stay within a small fixed error of the true value at every magnitude: sin and cos within 1e-6 absolute, 2^x and e^x within 2.5e-7 relative with overflow to infinity and underflow to zero, ln and log2 (positive argument) within 2.5e-7 relative plus 1e-7 absolute.',
 ['inputs'], 'all 2^32 argument patterns in the stated domain',
 'test/float.cpp samples uniformly random arguments of moderate size with a tolerance of 1e-3 to 1e-5.',
 ['emp-tool/circuits/float32_sin.cpp', 'emp-tool/circuits/float32_cos.cpp', 'emp-tool/circuits/float32_exp.cpp', 'emp-tool/circuits/float32_exp2.cpp', 'emp-tool/circuits/float32_ln.cpp', 'emp-tool/circuits/float32_log2.cpp'],
 [('range reduction and polynomial circuits', 'emp-tool/circuits/float32_{sin,cos,exp,exp2,ln,log2}.cpp')],
 'Long double libm functions, with the argument reduced exactly for sin/cos.',
 'The thorough check enumerates all 2^32 arguments of each function with the bit-sliced backend (128 evaluations at once), the quick one a spread of them; bounds measured on the unchanged code with margin.')

GCF = ['emp-tool/gc/halfgate_gen.h', 'emp-tool/gc/halfgate_eva.h']
PFF = ['emp-tool/gc/privacy_free_gen.h', 'emp-tool/gc/privacy_free_eva.h']
prop('C06', 'Half-gates: every garbled wire evaluates to the right label',
 'For every circuit, every input and all randomness, a half-gates garbler and evaluator that share only the transmitted messages end up, on every wire, with labels such that the evaluator\'s equals the garbler\'s zero label xor (wire value times the offset); constants, xor and not cost nothing on the wire and each AND of two secret wires exactly two blocks. This holds at any gate position of a session, for any number of gates, for several sessions interleaved in one process, and the reported AND count is exact.',
 ['programs', 'inputs', 'histories'], 'all circuits, inputs, label values and colour bits, gate positions, session interleavings',
 'test/halfgate.cpp and test/garble.cpp run one fixed circuit or one gate repeatedly with random labels.',
 GCF + ['emp-tool/utils/mitccrh.h'],
 [('half-gates garbling with free xor and point-and-permute', 'emp-tool/gc/halfgate_gen.h: halfgates_garble, and_gate; halfgate_eva.h: halfgates_eval'), ('public-label handling of constants', 'emp-tool/gc/halfgate_*.h: public_label, is_public')],
 'Plain evaluation of the generated circuit beside the garbled one; label relation checked on every wire from the recorded messages; message length compared with the AND count.',
 'Sampled circuits (10^6 per quick run), all value/colour combinations of one gate covered.')
prop('C07', 'Privacy-free garbling: every garbled wire evaluates to the right label',
 'For every circuit, every input and all randomness, a privacy-free garbler and evaluator that share only the transmitted messages (and the evaluator\'s knowledge of the wire values) end up, on every wire, with labels such that the evaluator\'s equals the garbler\'s zero label xor (wire value times the offset); each AND of two secret wires costs exactly one block and everything else none. This holds at any gate position of a session, for any number of gates, and for several sessions interleaved in one process.',
 ['programs', 'inputs', 'histories'], 'all circuits, inputs, label values, gate positions, session interleavings',
 'test/garble.cpp runs one gate repeatedly with random labels.',
 PFF + ['emp-tool/utils/mitccrh.h'],
 [('privacy-free half gate', 'emp-tool/gc/privacy_free_gen.h, privacy_free_eva.h')],
 'As C06, with zero labels ending in 0 and one block per AND.',
 'Sampled circuits.')
prop('C08', 'Garbling reveals neither the offset nor a repeated pad',
 'What an evaluator sees in a session (messages and all its labels) never yields the garbler\'s secret offset by xoring a few of them, and with the garbler\'s randomness fixed the messages do not depend on private input values. No two AND gates of a session and no two sessions reuse a pad, row, setup message or offset, however many gates are garbled and even when the same labels are garbled repeatedly, and the colour bit the evaluator sees is balanced whatever the wire value.',
 ['programs', 'histories', 'inputs'], 'all circuits and inputs, session lengths (to 300,000 gates), all sessions',
 'The tests check only that outputs decode; a garbling that leaks the offset or reuses tweaks passes them all.',
 GCF + PFF + ['emp-tool/utils/mitccrh.h'],
 [('fresh offset and start point per session', 'emp-tool/gc/*_gen.h constructors'), ('per-gate tweak', 'emp-tool/utils/mitccrh.h')],
 'Relations over the recorded view: small xor-sums of blocks against the offset, distinctness of all rows and output labels under repeated inputs, byte equality of messages under changed private inputs, balance counts with a bound at 6 standard deviations or more.',
 'Detects structural leaks, not computational ones; statistical bounds chosen so that a false alarm has probability below 1e-9.')
prop('C09', 'A recorded circuit file is the recorded computation',
 'Recording any computation (inputs of the first then the second party fed before the gates, public constants, any operations, any revealed outputs, constants and repeated outputs included) writes a well-formed Bristol-format file that maps every input, not only the one used while recording, to the outputs the computation gives for it, with exact gate, wire, input and output counts. Recording again, to the same or another file, is not affected by what was recorded before.',
 ['programs', 'inputs', 'histories'], 'all computations over the library\'s types, all inputs, all sequences of recordings',
 'test/gen_circuit.cpp records a few fixed computations and compares one evaluation.',
 ['emp-tool/execution/plain_circ.h', 'emp-tool/execution/plain_prot.h'],
 [('gate numbering and text output while executing', 'emp-tool/execution/plain_circ.h: CircuitPrinter'), ('header and output wires', 'emp-tool/execution/plain_prot.h: finalize, reveal')],
 'An independent parser/evaluator of the file format run on the recording input and other inputs, against direct execution of the same generated program.',
 'Sampled programs of up to some thousands of gates.')
prop('C10', 'Circuit files are read and executed exactly',
 'Reading any well-formed circuit file in the Bristol format or the multi-value Bristol Fashion format, with AND, XOR, NOT (INV) gates, any whitespace layout and any numbering of inner wires, gives an object whose execution over any backend produces the outputs the file defines and executes exactly its AND gates, for every input, repeatedly and after loading another circuit into the same object. Executing a gate array with 16-, 32- or 64-bit indices sets every wire to its defined value.',
 ['programs', 'inputs', 'histories'], 'all well-formed circuits (generated, to 20,000 gates), inputs, reload sequences',
 'Tests run two fixed files on one input each.',
 ['emp-tool/circuits/circuit_file.h'],
 [('file parsing and gate loop', 'emp-tool/circuits/circuit_file.h: BristolFormat, BristolFashion, execute_circuit')],
 'Direct evaluation of the generated circuit; counting backend for AND gates; half-gates backend for part of the cases.',
 'Sampled circuits; unsupported gate names are outside the domain.')
prop('C11', 'The shipped circuits compute AES, SHA-1, SHA-256 and addition',
 'Every circuit file that comes with the library is well formed (its counts match its contents and each wire is set once before use) and computes the function it is named for on every input: AES-128/192/256 encryption, the SHA-1 and SHA-256 compression function, 32-bit addition. This holds evaluated in the clear and through garbled evaluation.',
 ['inputs'], 'all keys, blocks, states and operands',
 'Tests evaluate two of the files on one constant input each.',
 ['emp-tool/circuits/files', 'emp-tool/circuits/circuit_file.h'],
 [('the files', 'emp-tool/circuits/files/bristol_fashion/*.txt, bristol_format/*.txt')],
 'OpenSSL\'s AES, SHA-1 and SHA-256 (compression via the message block) on generated inputs; native addition.',
 'Sampled; a single wrong gate changes the result for a large share of inputs in these functions.')
prop('C12', 'AES-128 encrypts, decrypts and batches as the standard says',
 'For every key and every number of blocks (zero included), AES-128 encryption of a block array, in the run-time sized, compile-time sized and multi-key batched forms, equals the FIPS-197 result for each block under its own key, and decryption restores the input. Exactly the given blocks are read and written.',
 ['inputs', 'configurations'], 'all keys, block counts (0..100 generated) and batch shapes (keys 1..8,16 x blocks 1..4,8)',
 'test/aes_opt.cpp compares a few batch shapes with the library\'s own other code path on random data.',
 ['emp-tool/utils/aes.h', 'emp-tool/utils/aes_opt.h'],
 [('key schedules, unrolled rounds', 'emp-tool/utils/aes.h, aes_opt.h')],
 'OpenSSL AES-128-ECB; guard bytes and AddressSanitizer for the extent of accesses.',
 'Sampled keys; shapes enumerated.')
prop('C13', 'PRG output depends only on seed, stream id and requests',
 'The pseudorandom generator\'s output is AES-128 in counter mode under (seed xor id): the bytes returned for any sequence of requests (blocks, bytes at any alignment and length, booleans, 32/64-bit words, reseeding, copying) are determined by the seed, the id and that sequence alone, every byte asked for is filled and no other is touched. Different ids or seeds give different streams, no block of a stream is handed out twice, and reseeding restarts exactly.',
 ['histories', 'inputs'], 'all seeds, ids, request sequences, lengths and alignments',
 'test/prg.cpp compares an aligned with an unaligned request once and measures speed.',
 ['emp-tool/utils/prg.h'],
 [('AES counter mode, tail handling, boolean expansion', 'emp-tool/utils/prg.h')],
 'A model generator on OpenSSL AES that keeps the counter and the word buffer; each returned byte compared, surroundings checked; two parties\' generators kept in step.',
 'Sampled histories.')
prop('C14', 'Fixed-key permutation and correlation-robust hashes match their definition',
 'The permutation is AES-128 under its key however the key was supplied (default, block, bytes, set later), for any number of blocks. The correlation-robust hashes return pi(x) xor x, pi(sigma(x)) xor sigma(x) and pi(pi(x) xor i) xor pi(x) in every form (single, fixed-size, bulk, in place, with scratch), all forms agreeing block by block, and sigma is a linear orthomorphism.',
 ['inputs', 'configurations'], 'all inputs, keys, tweaks, lengths and calling forms',
 'test/prp.cpp and test/hash.cpp compare one bulk call with itself or only time it.',
 ['emp-tool/utils/prp.h', 'emp-tool/utils/crh.h', 'emp-tool/utils/ccrh.h', 'emp-tool/utils/tccrh.h', 'emp-tool/utils/block.h'],
 [('permute and xor', 'emp-tool/utils/{prp,crh,ccrh,tccrh}.h'), ('sigma', 'emp-tool/utils/block.h')],
 'The definitions evaluated with OpenSSL AES.',
 'Sampled inputs, forms and sizes enumerated.')
prop('C15', 'The multi-instance hash never reuses a key and both parties agree',
 'In any sequence of hash calls of mixed widths, start-point changes and tweak positions, each key position of a call uses a fresh AES key derived from the start point and a tweak that increases by one per key, so that each output equals AES under that key of the input xor the input and no key serves two positions. A party hashing two blocks per key and a party hashing one block per key with the same call sequence use the same keys.',
 ['histories'], 'all call sequences, widths, batch sizes (4, 8, 16), start points and tweaks',
 'test/mitccrh.cpp makes one fixed sequence of calls.',
 ['emp-tool/utils/mitccrh.h', 'emp-tool/utils/aes_opt.h'],
 [('batched key schedule and key counter', 'emp-tool/utils/mitccrh.h: renew_ks, hash, hash_cir')],
 'Model: OpenSSL AES under start point xor tweak, with a running tweak; distinctness of outputs on constant input.',
 'Sampled histories.')
prop('C16', 'Streaming hash equals SHA-256 of the concatenation',
 'The digest of a hash object is SHA-256 of everything put into it since construction, the last reset or the last digest, in order, however the data is split and whatever the piece sizes relative to its buffer, and independently of other hash objects; a copy starts with what was put so far. One-shot hashing, hashing to a block and deriving a key from a curve point are the SHA-256 of the message, respectively its first 16 bytes, of the uncompressed point followed by the id for the key.',
 ['histories', 'inputs'], 'all put/reset/digest sequences and piece sizes',
 'test/hash.cpp compares one split of one message with a one-shot hash.',
 ['emp-tool/utils/hash.h'],
 [('buffered update', 'emp-tool/utils/hash.h: put, digest, reset, KDF')],
 'OpenSSL SHA-256 of the concatenation.',
 'Sampled histories.')
prop('C17', 'GF(2^128) arithmetic is exact field arithmetic',
 'Multiplication (plain and bit-reflected), unreduced products, reduction, inner products, coefficient powers, xor sums and packing agree with polynomial arithmetic over GF(2) modulo X^128+X^7+X^2+X+1 for all elements and all vector lengths, run-time and compile-time sized, also when the result is stored over an operand.',
 ['inputs'], 'all elements, all lengths (0..300 generated)',
 'test/f2k.cpp compares the two multiplications with each other on random elements and one inner product length.',
 ['emp-tool/utils/f2k.h'],
 [('carry-less multiplication and reduction', 'emp-tool/utils/f2k.h')],
 'Schoolbook polynomial arithmetic bit by bit; field laws.',
 'Sampled, with sparse and boundary elements.')
prop('C18', 'Bit-matrix transposition and block array operations are exact',
 'Transposing any bit matrix with rows and columns multiples of 8, at any alignment, moves every bit (r, c) to (c, r) and touches nothing outside the destination. Xor of block arrays (with an array or one block, in place too), comparison, setting a bit, reading the lowest bit, building and printing blocks act on exactly the given blocks.',
 ['inputs'], 'all shapes (8..8192), alignments and contents; all array lengths',
 'No test transposes; block helpers are exercised only indirectly.',
 ['emp-tool/utils/block.h'],
 [('SSE transposition with remainder cases', 'emp-tool/utils/block.h: sse_trans'), ('block loops', 'emp-tool/utils/block.h')],
 'Bit-by-bit reference; guard bytes and AddressSanitizer.',
 'Sampled contents over many shapes.')
prop('C19', 'Bit, boolean, integer and block conversions round-trip',
 'Converting integers of any width, arbitrary memory or blocks to boolean arrays and back restores the value for every length and both bit orders, changes no bit past the given length, and writes exactly the given number of booleans. Party and port arguments are parsed to the numbers given.',
 ['inputs'], 'all values, lengths (0..600 bits) and both orders',
 'test/to_bool.cpp converts one random array in one direction.',
 ['emp-tool/utils/utils.h', 'emp-tool/utils/utils.hpp', 'emp-tool/utils/block.h'],
 [('bit loops', 'emp-tool/utils/utils.hpp: to_bool, from_bool, int_to_bool, bool_to_int')],
 'Bit-by-bit reference and round trip; guard values around outputs.',
 'Sampled.')
prop('C20', 'Curve points and big integers obey exact group arithmetic',
 'In any history of operations on points (generator multiples, addition including equal, opposite and neutral points, inverse, scalar multiplication by any scalar, copies, assignment, serialisation and transfer through a channel) every point equals the textbook P-256 result, equality and the size function included, and operands other than the result are unchanged. Big-integer add, multiply, modulo and their modular forms are exact, serialisation round-trips, and random scalars lie in [0, order) without repeating.',
 ['histories', 'inputs'], 'all operation histories, scalars, aliasing patterns',
 'test/ecc.cpp checks two identities on random points.',
 ['emp-tool/utils/group.h', 'emp-tool/utils/group_openssl.h', 'emp-tool/io/io_channel.h'],
 [('wrapper over OpenSSL with shared context', 'emp-tool/utils/group_openssl.h')],
 'Independent affine P-256 arithmetic over reference big integers in the harness (points of known discrete logarithm).',
 'Sampled histories.')
prop('C21', 'Bytes that are not a curve point are rejected',
 'Parsing a point from bytes, directly or when receiving points from a channel, accepts every uncompressed encoding of a curve point and the neutral element\'s encoding, yields exactly that point, and never returns a point for bytes that encode none (coordinates off the curve or out of range, wrong prefix, wrong or absurd length, truncated): these end in an error. The points received before a corrupted one arrive intact.',
 ['inputs', 'fault_sequences'], 'all byte strings, all corruptions of a point stream',
 'Tests parse only encodings the library just produced.',
 ['emp-tool/utils/group_openssl.h', 'emp-tool/io/io_channel.h'],
 [('OpenSSL point decoding with error check', 'emp-tool/utils/group_openssl.h: from_bin, emp-tool/io/io_channel.h: recv_pt')],
 'An independent decoder (curve equation over reference big integers); each case in a child process whose ending is classified.',
 'Sampled byte strings.', level='fault_enumeration')
prop('C22', 'Memory and file channels are faithful typed byte streams',
 'Whatever sequence of data, block, boolean, point and raw messages is sent through a memory or file channel, receiving them in order, with the same or any other split, returns exactly the sent values, the byte counter counts the bytes sent, and clearing, resetting, reopening or loading a file gives the stream from its beginning. The bytes produced for booleans depend only on the booleans, not on where they lie in memory.',
 ['histories', 'inputs'], 'all message sequences, sizes (around the buffer capacity), splits, alignments, clear/reset points',
 'No test uses the memory channel; the file channel is used only to store one circuit\'s tables.',
 ['emp-tool/io/io_channel.h', 'emp-tool/io/mem_io_channel.h', 'emp-tool/io/file_io_channel.h'],
 [('growing buffer', 'emp-tool/io/mem_io_channel.h'), ('buffered file', 'emp-tool/io/file_io_channel.h'), ('typed messages, packed booleans', 'emp-tool/io/io_channel.h')],
 'A queue model of typed messages and their wire bytes.',
 'Sampled histories; also built without BMI2 (portable branches).')
prop('C23', 'NetIO delivers every byte in order under any duplex schedule',
 'For any schedule of sends, receives, flushes and syncs by two parties, in which no party waits for data the other has not sent and unread data in both directions fits the kernel\'s buffers, each receive returns exactly the next bytes the other party sent (data sent before a receive is delivered without an explicit flush, data received ahead is not lost when a send follows), nobody deadlocks, counters count the bytes sent, and sync returns only after the other party entered it.',
 ['schedules', 'histories'], 'all interleavings of up to 24 operations with messages up to 4 MB',
 'test/netio.cpp alternates fixed-size messages in one pattern.',
 ['emp-tool/io/net_io_channel.h', 'emp-tool/io/io_channel.h'],
 [('stdio-buffered socket, flush before receive', 'emp-tool/io/net_io_channel.h: send_data_internal, recv_data_internal, flush, sync')],
 'Two processes over loopback run the projections of a generated global schedule; the next bytes of a queue model; a watchdog for deadlock.',
 'Sampled schedules; the kernel chooses the timing.', technique='stateful property-based testing of generated two-process schedules against a queue model')
prop('C24', 'HighSpeedNetIO delivers every byte across turns without leaking memory',
 'When the parties take turns (each turn sends something and is received completely, in any pieces, before the direction changes or both flush at the same point), every received byte equals the one sent at any message size, packet edges included, without deadlock, flushed data arrives without further action of the sender, and counters count the bytes sent. The padding that fills packets on the wire is zeros, never other memory of the sender.',
 ['schedules', 'histories'], 'all turn structures (up to 8 turns of 1..8 messages) and sizes up to 3 MB',
 'test/netio2.cpp alternates fixed-size messages in one pattern.',
 ['emp-tool/io/highspeed_net_io_channel.h'],
 [('packet buffers, direction change detection, padding', 'emp-tool/io/highspeed_net_io_channel.h: SubChannel, SenderSubChannel, RecverSubChannel')],
 'Queue model over two processes; a raw peer that inspects the packets.',
 'Sampled schedules; turn-taking is the channel\'s documented mode of use.', technique='stateful property-based testing of generated two-process schedules against a queue model')
prop('C25', 'Missing data or a lost peer ends in an error',
 'When the data a receive asks for does not exist (truncated file, exhausted memory channel, peer closed, reset or crashed after any byte), the receives that can be satisfied return the right data and the first that cannot ends the program with an error: it neither hangs nor returns invented bytes. A send that cannot be delivered (full device, departed peer), and a network channel that cannot be opened as asked (port out of range or in use), end likewise and are not reported as success.',
 ['crash_points', 'fault_sequences'], 'every cut position of generated message streams, every kind of disconnection, all four channels',
 'Tests never fail a channel.',
 ['emp-tool/io/io_channel.h', 'emp-tool/io/mem_io_channel.h', 'emp-tool/io/file_io_channel.h', 'emp-tool/io/net_io_channel.h', 'emp-tool/io/highspeed_net_io_channel.h'],
 [('return-value checks of read, write and flush', 'emp-tool/io/*_channel.h')],
 'The receiving program runs in a child; which messages complete is computed from the cut; the ending is classified (error exit, signal, hang, success); contents compared.',
 'Cut points sampled over generated streams.', level='fault_enumeration', technique='property-based fault injection: generated message streams cut at generated points, ending classified against a model')
prop('C26', 'ThreadPool runs every task exactly once and hands back its result',
 'Every task enqueued before the pool is destroyed runs exactly once, completes before the destructor returns, and its future yields that task\'s value or exception, whatever the number of workers, submitting threads, task durations, nested submissions and queue lengths. As many tasks as there are workers run at the same time, never more.',
 ['schedules', 'histories'], 'all pools of 1..8 workers, submission histories and interleavings',
 'Tests use a pool for one kind of task with no stop in between.',
 ['emp-tool/utils/ThreadPool.h'],
 [('queue, condition variable, stop flag, join', 'emp-tool/utils/ThreadPool.h')],
 'Execution counters, future values and concurrency gauges against the generated task list; ThreadSanitizer build; watchdog.',
 'Sampled interleavings, perturbed with generated delays.', technique='stateful property-based testing with schedule perturbation and ThreadSanitizer')
prop('C27', 'AES-128-CTR in and out of circuits is the standard cipher',
 'AES-128-CTR encryption, outside circuits and inside them (key and counter block secret or public, separate, in place or key stream output, repeated with one object and one key), equals standard counter mode with a 128-bit big-endian counter for every key, counter block (carries included), start position, length and element type. A call with neither input nor output reports an error.',
 ['inputs', 'histories'], 'all keys, counter blocks, start positions, lengths and forms',
 'test/aes_128_ctr.cpp checks fixed lengths from position 0 with one counter block.',
 ['emp-tool/circuits/aes_128_ctr.h', 'emp-tool/circuits/files/bristol_fashion/aes_128.txt'],
 [('counter arithmetic and chunk loop', 'emp-tool/circuits/aes_128_ctr.h')],
 'OpenSSL AES with an independent 128-bit counter.',
 'Sampled, messages of over 2^32 bytes among them; block numbers below 2^64.')
prop('C28', 'SHA3-256 in and out of circuits is the standard hash',
 'SHA3-256 of any byte string, computed outside circuits and inside them from byte arrays or integers split at any point, in every calling form and repeatedly with one object, equals FIPS-202, lengths at and around multiples of the 136-byte rate included.',
 ['inputs', 'histories'], 'all messages (0..1000 bytes generated), splits and forms',
 'test/sha3_256.cpp needs a file that is not shipped and checks a few lengths.',
 ['emp-tool/circuits/sha3_256.h'],
 [('absorb and padding loop, address translation', 'emp-tool/circuits/sha3_256.h')],
 'An independent Keccak implementation; the Keccak-f circuit, which is not shipped, is generated by the harness.',
 'Sampled; messages a whole number of bytes long.')
prop('C29', 'With threading enabled each thread computes with its own backend',
 'When the library is built for threads, any number of threads that each install their own backend and run their own computations at the same time get the results they would get alone; a backend installed in one thread is invisible in every other, and no data race occurs.',
 ['schedules', 'configurations'], '2..7 threads with generated programs and backends of every kind',
 'No test builds with threading enabled.',
 ['emp-tool/execution/circuit_execution.h', 'emp-tool/execution/protocol_execution.h', 'emp-tool/emp-tool.cpp'],
 [('thread-local backend pointers', 'emp-tool/emp-tool.cpp, emp-tool/execution/*.h')],
 'Each thread\'s results compared with the plain reference; ThreadSanitizer build.',
 'Sampled interleavings.', technique='property-based testing of concurrent generated programs with ThreadSanitizer')
prop('C30', 'Randomness nobody seeded is fresh and full-size',
 'Generators created without a seed, garbling offsets and session set-up values are never repeated across objects, threads and forked processes, and depend on at least 128 bits of system randomness every one of which matters, also in a build that takes it from the processor (RDSEED), where a draw that failed is not used.',
 ['histories', 'inputs'], 'all sequences of creations in one process, in threads and across fork; every single-bit change of the entropy consumed',
 'Tests never compare two unseeded generators.',
 ['emp-tool/utils/prg.h', 'emp-tool/gc/halfgate_gen.h', 'emp-tool/gc/privacy_free_gen.h'],
 [('seeding from the system\'s random device', 'emp-tool/utils/prg.h: PRG()')],
 'Distinctness over 60,000 generators per case (a 32-bit seed collides almost surely); scripted entropy with one flipped bit must change the stream.',
 'Distinctness is a birthday test: entropy below about 40 bits is detected.')
prop('C31', 'Objects give back everything they took',
 'After any history of creating, copying (as far as they can be copied), using and destroying the library\'s objects - channels, thread pools, groups and points, hashes, generators, circuits, recorders, garbling sessions, integers and floats - the process holds no more memory, file descriptors or threads than before, so a long-running party does not run out of them, and nothing is given back twice.',
 ['histories', 'resources'], 'all histories of creation, use and destruction of the library\'s objects',
 'A leak changes no result; the tests end before it matters.',
 ['emp-tool/io/*.h', 'emp-tool/utils/group_openssl.h', 'emp-tool/utils/hash.h', 'emp-tool/utils/ThreadPool.h', 'emp-tool/circuits/circuit_file.h', 'emp-tool/execution/plain_prot.h', 'emp-tool/circuits/integer.hpp'],
 [('scratch memory of the hashes', 'emp-tool/utils/crh.h: Hn'), ('a channel\'s buffers and sockets', 'emp-tool/io/net_io_channel.h: ~NetIO'), ('the exit of the workers', 'emp-tool/utils/ThreadPool.h: ~ThreadPool')],
 'Every allocation of the process is counted (malloc is interposed), descriptors and threads are read from /proc; a generated history is repeated five times and no measure may grow at every repetition; a close() of a descriptor that is not open (which in a threaded program would hit another object) is a violation.',
 'Memory kept once per process (a cache) does not count; destruction after an error, which ends the process, is out of scope.')
