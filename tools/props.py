def Q(over, text): return {'over': over.split(), 'text': text}
def A(files, mech, state=None, obs=None):
    d = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: d['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if obs: d['observe_at'] = obs
    return d

AI = 'path- and loop-summarising abstract interpretation over SSA'
TRUST = 'Sound for the modelled Go semantics up to the stated assumptions; trusts go/types, x/tools/go/ssa and the hand-written summaries of the standard library.'

PROPS = [
 dict(id='C01', title='The DIANA trigraph cipher is one fixed, reciprocal substitution',
  statement='For every pair of letters A-Z the third letter of the trigraph is the one of the DIANA table (the three letter positions add up to 25 modulo 26), so enciphering twice with the same key letter gives back the text. Every routine of the cipher - single letters, texts, with or without key characters appended to the key - uses the same relation, never writes anything but A-Z into a cipher text, and reports an error for every character outside A-Z and for a key that is too short.',
  quantifier=Q('inputs', 'all texts, keys and offsets accepted by any routine of the cipher'),
  why_tests_cant='The tests compare a few dozen strings and one generated table; they do not cover every routine with every character, every length relation between key and text, and every offset.',
  anchors=A('diana/diana.go cipher.go', [('the trigraph relation', 'diana/diana.go TrigraphRune and the other exported functions')]),
  technique=AI + ' with a linear-modular and interval value domain', note=TRUST + ' Decides the relation for all inputs symbolically.'),
 dict(id='C02', title='Keys, ids, salts and persistence keys come from the operating system generator',
  statement='Every letter of a new key and of its id is made of its own fresh draw of the 26 letters, and a generated persistence key (exactly 32 bytes) or salt (at least 32 bytes) consists only of bytes read in full from the generator. All random numbers of the program come from the random number generator of the operating system; no seeded or other generator is used anywhere, and when the generator fails the program stops instead of going on with predictable values.',
  quantifier=Q('inputs fault_sequences', 'all configurations (key length, group size), all draws, failure of the generator at any read'),
  why_tests_cant='A sample of letters looks random whatever the source is; re-used draws, a biased range, a partly filled buffer or an ignored error of the generator do not show in tests.',
  anchors=A('keys.go crand/crand.go persistence.go', [('letters of keys and ids', 'keys.go NewKey'), ('source', 'crand/crand.go cryptoRandSource'), ('secrets', 'persistence.go GeneratePFK, GenerateSalt')]),
  technique=AI + ' with linear (use-once) tracking of random draws, and a provenance scan of all generators', note=TRUST + ' Trusts crypto/rand and the reduction in math/rand.'),
 dict(id='C03', title='A new key is complete, unmarked, uniquely named and added to the store once',
  statement='A generated key has an id of the configured group size that differs from the id of every key already in the store, at least as many letters as the configured key length, is neither used nor compromised, expires at the time that was asked for, belongs to its instance and is added to the store exactly once. Generating several keys passes the given expiry time and keepers on for each of them, and an expiry time that cannot be parsed generates nothing.',
  quantifier=Q('inputs histories', 'all stores, key lengths and group sizes, expiry times and keepers'),
  why_tests_cant='The tests generate a few keys; a clash of ids has a probability of 1 in 12 million and lengths that are no multiple of the group size are not tried.',
  anchors=A('keys.go', [('making a key', 'keys.go NewKey'), ('making several', 'keys.go GenerateKeys'), ('comparison of ids', 'krypto431.go ContainsKeyId')]),
  technique=AI + ' with quantified list facts', note=TRUST + ' Assumes key lengths below 2^53.'),
 dict(id='C04', title='A one-time key is spent at most once',
  statement='A key that has already been used is never selected or accepted for enciphering another message, also not when the sender names it explicitly. Every key used by a message is marked used before the next one is selected and before the first letter is enciphered with it, and is still marked when enciphering has succeeded. Nothing but a failed enciphering (or an explicit import) takes a mark off.',
  quantifier=Q('histories inputs', 'all sequences of operations on a store, all messages of any length, all key stores'),
  why_tests_cant='The tests encipher one message with fresh keys; re-use only shows up in histories with several messages, several chunks per message and failures in between.',
  anchors=A('cipher.go keys.go persistence.go', [('used mark set by the selection and by the enciphering', 'cipher.go FindKey, EnrichWithKey, Encipher'), ('release on failure', 'cipher.go Encipher deferred function')], [('Used', 'key is spent', 'Key.Used')]),
  technique=AI + ', typestate of the used mark', note=TRUST + ' Assumes key ids are unique within a store.'),
 dict(id='C05', title='Compromised keys are never used to encipher',
  statement='A key marked compromised is never handed out by the automatic selection, neither for the first nor for a later part of a message, and is refused when the sender names it explicitly.',
  quantifier=Q('histories inputs', 'all key stores with any combination of marks, all messages'),
  why_tests_cant='No test has a compromised key; the property quantifies over every store and every path that can select a key.',
  anchors=A('cipher.go', [('selection', 'cipher.go FindKey'), ('explicit key', 'cipher.go EnrichWithKey')], [('Compromised', 'key must not be used any more', 'Key.Compromised')]),
  technique=AI, note=TRUST),
 dict(id='C06', title='A message key is shared by exactly the named recipients\' keepers',
  statement='A key selected for a message with recipients has every recipient among its keepers (letter case ignored), and a message without recipients only gets a key without keepers. This holds for the first key and for every later key of a long message.',
  quantifier=Q('inputs histories', 'all recipient lists, all keeper lists, all stores'),
  why_tests_cant='Tests have no keepers in most keys and a single recipient; membership has to hold for all list lengths and orders.',
  anchors=A('cipher.go functions.go', [('keeper comparison', 'functions.go AllNeedlesInHaystack, EqualRunesFold'), ('selection', 'cipher.go FindKey, Encipher')]),
  technique=AI + ' with universally quantified list summaries', note=TRUST),
 dict(id='C07', title='A failed enciphering releases its keys and leaves no partial cipher text',
  statement='When enciphering a message fails at any point, every key it had reserved is available again, no other key changes its state, and the message keeps neither a key id nor a partial cipher text. A refused explicit key changes no mark.',
  quantifier=Q('inputs fault_sequences', 'all messages (any length, any unsupported character at any position), all points at which enciphering can fail'),
  why_tests_cant='Failures in the second and later parts of a message, or between reservation and first use, are not reachable with the fixed inputs of the tests.',
  anchors=A('cipher.go', [('release on failure', 'cipher.go Encipher deferred function')], [('Used', 'key is spent', 'Key.Used')]),
  technique=AI + ' with a ghost ownership (typestate) analysis of reserved keys', note=TRUST + ' Objects made by the same statement in earlier loop rounds are not told apart.'),
 dict(id='C08', title='Keys, messages and stores share no memory with each other',
  statement='Every slice that a key, a message or a store keeps (ids, key letters, texts, call-signs, lists of keepers and recipients, persistence key, salt) belongs to that record alone: values taken from another record are copied, and a slice is never handed to two records. Wiping, deleting or changing one record, or a temporary buffer, therefore leaves the contents of all others as they were.',
  quantifier=Q('inputs histories', 'all keys, messages and stores, and every order in which they are made, imported, exported, changed, wiped and deleted'),
  why_tests_cant='Two records that share memory behave correctly until one of them is wiped or changed, possibly much later and in another command.',
  anchors=A('krypto431.go keys.go messages.go cipher.go persistence.go functions.go', [('key ids in messages', 'cipher.go EnrichWithKey, TryDecipherPlainText'), ('import and export', 'persistence.go ImportKeys, ExportKeys'), ('lists of call-signs', 'functions.go VettedKeepers; keys.go AddKeeper; messages.go AddRecipient, NewTextMessage')]),
  technique='interprocedural origin (ownership) analysis of slices over SSA, with parameters substituted at call sites', note='Flow-insensitive for variables (their stores are joined), so it errs on the side of reporting; whole-record copies are followed through local variables and helper functions. A record handed out to the caller together with its slices (NewKey, NewTextMessage) is not treated as a second record.'),
 dict(id='C09', title='Wiping overwrites every element of every secret, even when random fails',
  statement='Wiping a slice, a key (letters, id, comment), a message (plain text, cipher text, key id, radiogram, binary) or a piece of text overwrites every element before the slice is released, on every path and also when the random number source fails or stops short, and leaves the field empty. No wiping function releases a slice it has not overwritten. Wiping or closing a store does this to every key and message in it and to the persistence key and the salt.',
  quantifier=Q('inputs fault_sequences', 'all slices, keys, messages and stores, and every failure of the random number source'),
  why_tests_cant='Freed memory can not be inspected by a test of the interface, and the random number source does not fail in a test run.',
  anchors=A('krypto431.go', [('slice wipers', 'krypto431.go RandomWipe, ZeroWipe, RandomWipeBytes, ZeroWipeBytes'), ('record wipers', 'krypto431.go Key.RandomWipe, Key.ZeroWipe, Message.RandomWipe, Message.ZeroWipe, chunk.RandomWipe'), ('store', 'krypto431.go Krypto431.Wipe, Close')]),
  technique=AI + ', every read of random numbers split into success and failure, every field write followed', note=TRUST),
 dict(id='C10', title='Temporary secrets are wiped on every way out',
  statement='A typed password (and every copy of it), the encoded text an enciphering works with, the copies of the text an attempt at deciphering makes, and every store a command or the import of keys opens are wiped before the function that made them returns, on success and on every failure. What is handed to the caller or put into a message or key is not temporary; a password given to a key derivation is wiped by that.',
  quantifier=Q('inputs fault_sequences', 'all inputs, and every failure of a prompt, of the key derivation, of the key selection, of the coder, of loading and of saving'),
  why_tests_cant='What is left in memory after a function returned is not visible through the interface, and most of the ways out are failures that do not happen in a test run.',
  anchors=A('persistence.go cipher.go cmd/krypto431/keys.go cmd/krypto431/pfk.go', [('passwords', 'persistence.go AskForPassword, AskAndConfirmPassword, SetPFKFromPassword, Save, Load; cmd/krypto431/pfk.go generatePFK, managePFK'), ('texts', 'cipher.go Message.Encipher, Message.TryDecipherPlainText'), ('stores', 'persistence.go ImportKeys; cmd/krypto431 keys, messages, initialize, managePFK, generatePFK')]),
  technique=AI + '; every secret is a debt followed through copies, lists and calls (typestate: owed, wiped, handed over), checked at every return', note=TRUST + ' Strings can not be wiped in Go and are left out.'),
 dict(id='C11', title='The persistence key is derived from a password in one strong way',
  statement='A key derived from a password is 32 bytes of PBKDF2-HMAC-SHA256 over exactly that password and the salt of the instance (at least 32 bytes), with at least 310000 iterations, the same at every place. A derivation that is refused (no salt, a short salt, or for the validating variant a weak password) leaves the key of the instance as it was, and the password is wiped in every case.',
  quantifier=Q('inputs', 'all passwords, salts and instances, on every path'),
  why_tests_cant='No test derives a key; weaker parameters, a trimmed password or a password left in memory after an error work just as well as the right thing.',
  anchors=A('persistence.go krypto431.go', [('derivation', 'persistence.go DerivePFKFromPassword, DerivePFKFromPasswordWithValidation')], [('persistenceKey', 'key of the store', 'Krypto431.persistenceKey')]),
  technique=AI, note=TRUST + ' Trusts the implementation of PBKDF2 and the strength estimate of the password validator.'),
 dict(id='C12', title='The key store is only ever written encrypted',
  statement='Everything saving writes to the file goes through an XSalsa20-Poly1305 stream with random nonces, keyed with the 32 byte persistence key of the instance; a key of any other length is refused. No other function serialises keys or messages, and neither the persistence key nor the salt is part of what is saved.',
  quantifier=Q('histories inputs', 'all instances and all ways of setting the persistence key'),
  why_tests_cant='There is no test of saving; a test could look at one file but not show that no path writes plain data or uses a fixed or short key.',
  anchors=A('persistence.go krypto431.go', [('the layers of the file', 'persistence.go Save'), ('unexported secrets', 'krypto431.go type Krypto431')], [('persistenceKey', 'key of the store', 'Krypto431.persistenceKey')]),
  technique=AI + ', typestate of the file, and a call-site scan', note=TRUST),
 dict(id='C13', title='What was saved can be loaded, completely',
  statement='Loading reads exactly the layers saving writes (same serialisation, compression, cipher and key, opposite roles of the encrypted stream), all data of the instance, its keys and messages is part of the serialised state, and after a successful load the file has been decoded into the instance and every loaded key and message belongs to it.',
  quantifier=Q('histories inputs', 'all stores, with any number of keys and messages'),
  why_tests_cant='There is no test of saving and loading; a round trip of one store does not show that no field and no element is left out.',
  anchors=A('persistence.go krypto431.go', [('saving', 'persistence.go Save'), ('loading and relinking', 'persistence.go Load')], [('instance', 'owner of a key or message', 'Key.instance, Message.instance')]),
  technique=AI + ' of both sides with quantified list summaries, and a comparison of their protocol', note=TRUST),
 dict(id='C14', title='A failed save never destroys the previous key store',
  statement='The previous store is only replaced, in one step, by a file that has been written completely: all layers closed without error in the right order, and synced. Saving reports success only when the new file is in place and was closed without error. When saving fails it leaves no temporary file.',
  quantifier=Q('crash_points fault_sequences', 'every point at which the process may stop and every combination of failing file operations'),
  why_tests_cant='Crashes and failures of the disk at a particular step cannot be reached by the tests.',
  anchors=A('persistence.go', [('temporary file, sync and rename', 'persistence.go Save')]),
  technique=AI + ', typestate of the file with every library call split into success and failure', note=TRUST),
 dict(id='C15', title='An existing key store is never replaced without consent',
  statement='Saving replaces an existing file only if overwriting was allowed by the option, if the store was loaded successfully before, or if the user answered the question with yes. A test that fails for another reason than that the file does not exist does not count as absence, and a failed load does not allow overwriting.',
  quantifier=Q('histories inputs', 'all file system states, option combinations, answers and histories of loads'),
  why_tests_cant='No test saves; the property quantifies over all combinations of options, answers and file states.',
  anchors=A('persistence.go krypto431.go', [('the question', 'persistence.go Save'), ('permission after loading', 'persistence.go Load')], [('overwritePersistenceIfExists', 'overwriting is allowed', 'Krypto431.overwritePersistenceIfExists')]),
  technique=AI + ' with path conditions, and an enumeration of all writes of the permission', note=TRUST + ' Does not consider another process creating the file in between.'),
 dict(id='C16', title='Every file the program writes is readable by its owner only',
  statement='Key stores, exported keys, key and message sheets (text, PDF) and every other file the program creates are created with permissions for the owner only, and no permission is added afterwards.',
  quantifier=Q('inputs histories', 'all calls in all packages that create a file or change permissions, on every path'),
  why_tests_cant='No test writes a file; a test could look at one file but not at every place that creates one.',
  anchors=A('persistence.go print.go cmd/krypto431', [('store', 'persistence.go Save'), ('sheets', 'print.go')]),
  technique='call-site scan with interprocedural constant propagation of the file mode', note=TRUST + ' Assumes that files that exist already keep the mode the program gave them.'),
 dict(id='C17', title='Coder and decoder follow one coding table, which the printed legend shows',
  statement='Each supported character of a text is written with the control letters of one constant coding table and is read back by the decoder as the same character (up to letter case marks), whatever characters came before it; a character without a code is refused. An announced change of key and the padding are written so that the decoder recognises them, and it starts afresh with every key. The legend printed under each key sheet shows the codes of this same table, and no code of it changes while the program runs.',
  quantifier=Q('inputs histories', 'every sequence of characters (all states of coder and decoder that any text can reach, and every rune)'),
  why_tests_cant='The tests of the package encode no text; a wrong code in one state of the coder (a certain table switched on, a digit run, lower case) shows only for texts that reach this state.',
  anchors=A('cipher.go print.go', [('coder', 'cipher.go encodeCharacter, changeKey, pad, reset'), ('decoder', 'cipher.go decodeCharacter'), ('tables', 'cipher.go CharacterTables'), ('legend', 'print.go KeyFooter')]),
  technique='finite automata of coder and decoder extracted from the source by constant propagation over SSA (all states, all runes), product fixpoint', note=TRUST + ' Assumes that text holds no rune that changes into an ASCII letter by upper-casing (long s, dotless i).'),
 dict(id='C18', title='No input crashes an operation',
  statement='No operation of the library or of the command panics or crashes, whatever messages, radiograms, cipher texts, keys, ids, call-signs, files and passwords (of any content and length, empty ones included) it is given, provided the instance has a valid configuration: nothing is indexed or sliced out of its bounds, nothing that may be nil is followed, no size is negative and nothing is divided by zero. What can not be handled is reported as an error. The only exception is a failing source of randomness, where no key, salt or persistence key may be made. An operation that returns a pointer and an error never returns nil together with success.',
  quantifier=Q('inputs', 'all arguments, stores and file contents, every path of every function of the module'),
  why_tests_cant='The tests pass well-formed input; a crash needs an unusual length (a text shorter than a group, one letter more than the key has, a row without a header, a missing optional argument).',
  anchors=A('cipher.go messages.go keys.go functions.go persistence.go print.go cmd/krypto431', [('hostile text', 'messages.go NewTextMessage, ParseRadiogram; cipher.go Decipher, TryDecipherPlainText, decodeCharacter'), ('part and key', 'cipher.go Encipher'), ('stores', 'persistence.go Save, Load, ImportKeys'), ('tables', 'keys.go SummaryOfKeys; messages.go SummaryOfMessages; functions.go')]),
  technique=AI + ' of each function with arbitrary arguments; linear arithmetic over lengths and indexes; obligation at every index, slice, conversion, size, division, assertion and pointer', note=TRUST + ' Not covered: crashes inside other libraries, exhausted memory or stack, deadlock, instances (records, callbacks) that are nil, and the functions that wipe.'),
 dict(id='C19', title='Key letters are used in order, each for one letter of the text',
  statement='Letter n of a part of a message is enciphered with letter n of the key of that part, and deciphering uses the letters of a key in the same order, starting from the first letter after every change of key. No letter of a key is ever skipped or used for two letters of a message.',
  quantifier=Q('inputs', 'all messages and cipher texts, any number of key changes'),
  why_tests_cant='A round trip of a short message does not show a letter used twice, and tests have no message with several key changes of different lengths.',
  anchors=A('cipher.go', [('enciphering loop', 'cipher.go Encipher'), ('deciphering loop', 'cipher.go Decipher')]),
  technique=AI + ' with a ghost counter related to program counters by an inductive invariant', note=TRUST),
 dict(id='C20', title='Deciphering spends keys only on success and a failed attempt changes nothing',
  statement='When deciphering fails no key is marked used; when it succeeds every key the message was enciphered with is marked used and the cipher text and key id of the message are unchanged. An unsuccessful attempt to recognise cipher text in a plain text, or one that is a dry run, leaves plain text, cipher text and key id as they were.',
  quantifier=Q('inputs fault_sequences', 'all cipher texts, valid or not, with any number of key changes'),
  why_tests_cant='Tests decipher one valid text; failures after the first letters and in the second key need inputs the tests do not have.',
  anchors=A('cipher.go', [('marking at the end', 'cipher.go Decipher'), ('restore', 'cipher.go TryDecipherPlainText')], [('Used', 'key is spent', 'Key.Used')]),
  technique=AI + ' with a ghost ownership analysis of looked-up keys', note=TRUST),
 dict(id='C21', title='Export and import copy exactly the selected keys, completely',
  statement='Exporting gives a store with exactly the keys the filter selects, each with its id, letters, keepers, dates, marks and comment in memory of its own, and no messages, and leaves the exporting store as it was. Importing adds every selected key whose id has the group size, once, with its id, letters, dates, marks and comment, the sender among its keepers and the own call-sign not. A key that is in the store already is replaced only when that was allowed by the option or by the user for this key; the number reported is that of the keys added.',
  quantifier=Q('inputs histories configurations fault_sequences', 'all stores, filters, option lists and answers of the user, also when a question or a deletion fails half-way'),
  why_tests_cant='No test exports or imports; what happens to a key depends on the filter, on the keys already there, on the options and on what the user answers.',
  anchors=A('persistence.go keys.go', [('exporting', 'persistence.go ExportKeys'), ('importing', 'persistence.go ImportKeys'), ('the options', 'krypto431.go With... functions')]),
  technique=AI + ' with quantified list facts and a ghost counter', note=TRUST + ' Assumes Load fills the incoming store (C13), DeleteKey deletes (C27), and that the filter function does not change keys.'),
 dict(id='C22', title='A command succeeds only when everything it did succeeded and was saved',
  statement='When an operation of the library or a question to the user fails in a command of the program, the command fails and the program ends with a failure status. A command that changed the store (generated, imported, deleted or deciphered something, changed the persistence key, initialized the store) and succeeds has saved it after the last change. A cipher text, which may be transmitted, is shown only after the store with the used marks of its keys has been saved.',
  quantifier=Q('inputs configurations fault_sequences', 'all combinations of options and answers of the user, every library call failing or succeeding'),
  why_tests_cant='The command has no tests; a lost change needs a particular combination of options, or a save that fails.',
  anchors=A('cmd/krypto431/keys.go cmd/krypto431/messages.go cmd/krypto431/pfk.go cmd/krypto431/initialize.go cmd/krypto431/functions.go cmd/krypto431/krypto431.go', [('commands', 'Action functions keys, messages, managePFK, initialize'), ('exit status', 'cmd/krypto431/krypto431.go main')]),
  technique=AI + ', every library call split into success and failure, typestate changed/saved of the store', note=TRUST + ' Assumes the command line library returns the error of the Action it ran.'),
 dict(id='C23', title='Commands list, print and change exactly what the options select',
  statement='The filter a command of the program gives to the library accepts a key or message exactly when the options say so: everything with --all; else those with a named id; else those that satisfy every other condition given (keepers or addressees all or with --or any, senders, used, unused, compromised, expired, invalid, valid for a time). A list of names is split at commas and spaces, call-signs and key ids are upper-cased, message ids are not. Summaries, text files and PDF files contain every selected key or message, each once, and nothing of the others, and deciphering a selection tries every selected message and no other.',
  quantifier=Q('inputs configurations', 'all combinations of options, all keys, messages, stores and filters'),
  why_tests_cant='No test runs a command or prints a selection; a wrong selection depends on a combination of options and of the properties of a key.',
  anchors=A('cmd/krypto431/keys.go cmd/krypto431/messages.go functions.go keys.go messages.go print.go', [('filters', 'filterFunction of the commands keys and messages'), ('names', 'functions.go AllNeedlesInHaystack, AnyNeedleInHaystack, AnyOfThem, VettedKeepers, VettedMessageIds'), ('lists', 'SummaryOfKeys, SummaryOfMessages, KeysAsText, MessagesAsText, KeysPDF, MessagesPDF')]),
  technique=AI + ', filters compared with the documented selection by three-valued evaluation on every path, linear typestate of printed text', note=TRUST + ' Order and layout of what is printed are not covered. Assumes the clock does not pass an expiry date within one filter call.'),
 dict(id='C24', title='No secret gets into an error, a warning, a log or a question',
  statement='No error text, nothing written to standard error or a log, no panic and no question asked on the terminal contains letters of a key, plain text, binary content, encoded text or radiogram of a message (not even a single character of them), a password, the persistence key or the salt. Ids of keys and messages, call-signs, file names, lengths and counts may be named, and so may the group that is looked up as the id of a key.',
  quantifier=Q('inputs fault_sequences', 'all inputs and failures, at every place of the module that makes an error or writes a diagnostic'),
  why_tests_cant='Diagnostics are made on the ways out that tests do not take, and what they quote depends on the text, key or password that happens to be there.',
  anchors=A('cipher.go persistence.go messages.go cmd/krypto431/functions.go', [('errors', 'every fmt.Errorf and errors.New of the module'), ('warnings', 'persistence.go DerivePFKFromPassword, AskForPassword; messages.go NewTextMessage; krypto431.go RandomWipe; cmd/krypto431/functions.go eprintf'), ('questions', 'persistence.go Save, ImportKeys; cmd/krypto431 askYesNo')]),
  technique='interprocedural taint analysis over SSA (summaries for results, out-parameters, fields and diagnostics) from every secret to every diagnostic', note=TRUST),
 dict(id='C25', title='Random numbers can be drawn concurrently',
  statement='Calling the functions of the random number package from several goroutines never touches shared mutable state without one common lock, and every path through them, also a panicking one, gives the lock back and never takes it twice.',
  quantifier=Q('schedules fault_sequences', 'all interleavings of any number of goroutines, failures included'),
  why_tests_cant='The tests draw from one goroutine; races and a lock left held after a failure need particular interleavings or a failing generator.',
  anchors=A('crand/crand.go', [('lock', 'crand/crand.go cryptoRandSource')]),
  technique='lockset analysis and lock typestate on top of ' + AI, note=TRUST + ' Assumes crypto/rand.Reader and its methods are safe for concurrent use.'),
 dict(id='C26', title='The program builds on every supported system and uses its line break',
  statement='All packages type-check for Linux, macOS, Windows and the BSDs on every processor the program is released for, with the build constraints of the system, and the line break used for text output is CR LF on Windows and LF everywhere else, in the library as well as in the command.',
  quantifier=Q('configurations', 'all supported operating systems and processors'),
  why_tests_cant='Tests run on one system and never compile the files of the others.',
  anchors=A('krypto431.go cmd/krypto431', [('line break', 'files with build constraints')]),
  technique='type checking of the whole module once per target system and comparison of constants', note='Complete for the listed systems and processors (those of the Makefile, and the 32-bit ones).'),
 dict(id='C27', title='Deleting removes and wipes exactly the keys or messages named',
  statement='Deleting keys or messages by id wipes and removes every element whose id was given (key ids in any letter case, message ids exactly) and wipes, changes and loses no other element; ids that are not in the store change nothing. The number reported is the number removed. Deleting by strings or by lines of a summary deletes what all the strings, or the first words of all the lines, name.',
  quantifier=Q('inputs histories', 'all stores and lists of ids, with unknown and repeated ids'),
  why_tests_cant='No test deletes anything; removal depends on the position of the element and on the other ids given.',
  anchors=A('keys.go messages.go', [('deleting keys', 'keys.go DeleteKey, DeleteKeyByString, DeleteKeysBySummaryString'), ('deleting messages', 'messages.go DeleteMessage, DeleteMessageByString, DeleteMessagesBySummaryString')]),
  technique=AI + ' with quantified list facts and sum invariants', note=TRUST + ' Assumes ids are unique within a store.'),
 dict(id='C28', title='A new message is recorded once, and only when it was enciphered or received',
  statement='A message entered as a radiogram is added to the end of the messages of the store exactly once when the operation succeeds, and is the message that is returned; when it fails nothing is added and the message is wiped. A message whose sender is the own call-sign (in any letter case) is recorded only after it was enciphered successfully, with the key named for it if one is named, whose id must have the group size; every other message is recorded after an attempt to decipher it, whether that succeeds or not. A new message gets an id that no message in the store has.',
  quantifier=Q('inputs histories', 'all radiograms, key ids and stores, every outcome of parsing, enciphering and deciphering'),
  why_tests_cant='No test enters a message; failures in the middle of the operation and clashes of ids do not happen in a test run.',
  anchors=A('messages.go', [('recording', 'messages.go NewTextMessage'), ('reading the text', 'messages.go NewTextMessageFromReader, PromptNewTextMessage'), ('ids', 'messages.go NewUniqueMessageId, ContainsMessageId')]),
  technique=AI + ', every fallible step split into success and failure', note=TRUST + ' What enciphering itself does is C04-C07 and C19.'),
 dict(id='C29', title='Invalid keys, salts, call-signs and settings are refused',
  statement='A persistence key that does not have 32 bytes, a salt shorter than 32 bytes and a call-sign that is empty after trimming are never stored; a setter that reports an error leaves the previous value, and one that reports success has stored the given value. The check of the settings succeeds only if a file name is set, the group size is at least 1, the key length and the columns have their minimum and the key columns hold at least one group, and the command saves a new store only after this check and setting the call-sign have succeeded.',
  quantifier=Q('inputs configurations', 'all strings and byte slices, all combinations of settings, on every path'),
  why_tests_cant='Tests use valid settings; the property quantifies over all invalid ones and over every way to set them.',
  anchors=A('persistence.go krypto431.go cmd/krypto431/initialize.go', [('setters', 'persistence.go SetPFKFromString, SetSaltFromString; krypto431.go SetCallSign, options'), ('check of the settings', 'krypto431.go Assert'), ('new store', 'cmd/krypto431/initialize.go initialize')]),
  technique=AI + ', closures included', note=TRUST),
 dict(id='C30', title='A library operation that reports success had no failure underneath',
  statement='When a function of the library that can return an error returns none, no operation it used has failed: nothing it opened, read, wrote, encoded, synced, renamed, looked up, generated, enciphered or was answered reported an error. A text or PDF file, or a key store, it wrote was also closed, and the close succeeded. Not failures in this sense are: a file that was only asked about (stat, links), a password that is judged weak (where that is a warning or asked again), an incoming message that can not be deciphered (it is kept, with a warning), diagnostics that can not be printed, and what wiping does instead.',
  quantifier=Q('inputs fault_sequences', 'all functions of the library that return an error, all paths, every operation failing or succeeding'),
  why_tests_cant='The operations do not fail in a test run: disks are not full, files are readable, and keys and texts of the tests are valid.',
  anchors=A('print.go persistence.go cipher.go messages.go keys.go crand/crand.go', [('files', 'print.go KeysTextFile, MessagesTextFile, KeysPDF, MessagesPDF, writePDF; persistence.go Save, Load'), ('operations', 'every function of the library with an error result')]),
  technique=AI + ', every call that can fail split into success and failure; typestate of files opened for writing', note=TRUST),
 dict(id='C31', title='A text is enciphered whenever there are keys for it',
  statement='Each part of a message keeps room for any next character, for the announcement of the next key and for the padding, so no part grows beyond its key. Enciphering a text is refused only because the message can not get a key, there is no further key for the recipients, or a character of the text has no code.',
  quantifier=Q('inputs histories', 'all texts (any length, any mix of cases and tables), all key lengths and group sizes, any number of keys'),
  why_tests_cant='Whether a part grows beyond its key depends on which characters stand at the end of the part; the tests encipher nothing.',
  anchors=A('cipher.go', [('room in a part', 'cipher.go Encipher'), ('letters written and counted', 'cipher.go encodeCharacter, changeKey, toggleCase, gotoTable, pad')], [('charCounter', 'letters of the present part', 'codecState.charCounter')]),
  technique=AI + ' with linear inequalities over ghost letter counts; bounds taken from the automaton of the coder', note=TRUST + ' Assumes keys with room for one character and one announcement (ids have the group size).'),
 dict(id='C40', title='Deciphering an enciphered message gives back the text',
  statement='Enciphering writes every character of the plain text once, in order, announces each next key in the part of the key before it, pads only at the end and enciphers every letter of every part into an emptied cipher text. Deciphering reads every letter of the cipher text once, in order, collects exactly the letters of an announced key id and continues with that key, and the plain text is exactly what the decoder read. So a text of supported characters of any length comes back as it was (up to the padding, which reads as nothing).',
  quantifier=Q('inputs histories', 'all texts over the supported characters, any number of keys per message, all key stores'),
  why_tests_cant='The tests encipher nothing; the interplay of coder state, changes of key, parts and padding depends on the length and the characters of the text.',
  anchors=A('cipher.go diana/diana.go', [('enciphering', 'cipher.go Encipher'), ('deciphering', 'cipher.go Decipher'), ('coder and decoder', 'cipher.go encodeCharacter, decodeCharacter, changeKey, pad, reset'), ('trigraph', 'diana/diana.go TrigraphRune')]),
  technique=AI + ' with ghost counters and linear (use-once) debts for characters, parts and letters; product of the coder and decoder automata', note=TRUST + ' Composition of the agreement of coder and decoder (as in C17), the reciprocal table (C01), the pairing of key letters (C19) and the rules of this check. Assumes unique key ids of the group size.'),
]

NA = [
 dict(id='C41', title='Radiogram parsing recovers the message of any well-formed radiogram',
  statement='For every radiogram in the documented format the parsed message has the call-signs, date, text and key id that were written.',
  quantifier=Q('inputs', 'all well-formed radiogram texts'),
  why_tests_cant='No test parses a radiogram.',
  anchors=A('messages.go', [('parser', 'messages.go ParseRadiogram')]),
  reason='The parser is driven by regular expressions and time formats over runtime strings; relating every accepted string to the documented grammar is not decidable by an argument over the source in reach.'),
 dict(id='C42', title='Printed key and message sheets show every character on the page',
  statement='The PDF of a key or message shows every group of the key or message within the page margins, without truncation or overlap.',
  quantifier=Q('inputs', 'all keys and messages of any length'),
  why_tests_cant='No test renders a PDF.',
  anchors=A('print.go', [('PDF layout', 'print.go KeysPDF, MessagesPDF')]),
  reason='Layout is decided at run time by the gopdf library from font metrics; no static argument over this source bounds it.'),
 dict(id='C43', title='Key letters are statistically uniform and independent',
  statement='Generated key letters are indistinguishable from uniform random letters.',
  quantifier=Q('histories', 'all generated keys'),
  why_tests_cant='A sample can not show uniformity.',
  anchors=A('crand/crand.go keys.go', [('random source', 'crand/crand.go')]),
  reason='The distribution is a property of the operating system generator and of math/rand\'s reduction at run time; where the bytes come from and how letters are derived is decided by C02 and C03.'),
 dict(id='C44', title='No copy of a secret survives in process memory after it was wiped',
  statement='After a key, message, password or persistence key was wiped, no readable copy of it remains anywhere in the memory of the process.',
  quantifier=Q('histories', 'all executions'),
  why_tests_cant='Tests can not inspect freed memory.',
  anchors=A('krypto431.go', [('wiping', 'krypto431.go Wipe and friends')]),
  reason='Copies made by the runtime (stack growth, garbage collector, string conversion, library buffers) are invisible in the source; the explicit wipes are decided by C09 and C10.'),
]
