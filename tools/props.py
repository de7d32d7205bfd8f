I = ['inputs']
H = ['inputs', 'histories']
NOTE = ('Every obligation generated from the IR of the current sources is discharged for all inputs and iterations. '
        'Trusted: clang front end, the VC generator in vp/, z3, and the contracts assumed for libstdc++/boost listed in the evidence.')
PROPS = []


def P(id, title, statement, files, mech, why, text, over=I, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


B = 'include/maidsafe/common/'
S = 'src/maidsafe/common/'
P('P01', 'Hex encoding is exact and hex decoding is its strict inverse',
  'hex::Encode maps every byte string or byte vector to twice as many lower-case hex digits, high nibble first, and hex::DecodeToString / '
  'DecodeToBytes return exactly the bytes an encoding came from. A string of odd length, or with any character that is not a '
  'lower-case hex digit (upper-case digits included), makes both decoders throw invalid_conversion, and no input leads to an access outside a buffer or a lookup table.',
  [S + 'encode.cc', B + 'encode.h'],
  [('hex::Encode', S + 'encode.cc'), ('hex::DecodeToString', S + 'encode.cc'), ('hex::DecodeToBytes', S + 'encode.cc')],
  'The tests decode a few fixed and random strings; malformed strings of every shape (any position, any byte value) are never tried, and the test binary is not part of the stable build.',
  'every byte string of every length, every possible character at every position')
P('P02', 'Base64 encoding follows RFC 4648 and decoding is its strict inverse',
  'base64::Encode maps every byte string or byte vector to its RFC 4648 base64 text (standard alphabet, "=" padding), and base64::DecodeToString / DecodeToBytes '
  'return exactly the bytes an encoding came from. Text whose length is not a multiple of 4, or with a character outside the alphabet, or with "=" anywhere other than as the last one or two characters, '
  'makes both decoders throw invalid_conversion, and no input leads to an access outside a buffer or a lookup table.',
  [S + 'encode.cc', B + 'encode.h'],
  [('base64::Encode', S + 'encode.cc'), ('base64::DecodeToString', S + 'encode.cc'), ('base64::DecodeToBytes', S + 'encode.cc')],
  'The tests use the RFC vectors and random round trips; malformed text of every shape is never tried.',
  'every byte string of every length, every possible character at every position')
P('P05', 'An initialised BoundedString always respects its bounds',
  'After every constructor, assignment, conversion, move or archive load, a BoundedString that reports itself initialised holds a string whose size is within its minimum and maximum and which is exactly the string it was given; '
  'a string outside the bounds is rejected (outside_of_bounds from a constructor; parsing_error from a load, which leaves the object as it was), and reading an uninitialised object (string, size, data, element access, saving) throws uninitialised. '
  'Comparison is a total order: uninitialised objects are equal to each other and sort before initialised ones, which compare as their byte strings; XOR of two equal-sized bounded strings is bytewise and needs both initialised.',
  [B + 'bounded_string.h', B + 'identity.h'],
  [('OutwithBounds', B + 'bounded_string.h'), ('valid_ flag', B + 'bounded_string.h'), ('operator^', B + 'bounded_string.h')],
  'The tests construct a handful of sizes; every sequence of copies, moves, assignments and loads with every size is out of their reach.',
  'every string length and content, every initialised/uninitialised state of each operand, every constructor, assignment, comparison and archive operation', over=H)
P('P04', 'Identities compare by XOR distance and their text encodings are exact',
  'For 64-byte identities, CloserToTarget(a, b, t) is true exactly when a XOR t is smaller than b XOR t as a big-endian 512-bit number, and CommonLeadingBits(a, b) is the number of leading bits a and b share (512 when equal). '
  'binary/hex/base64 Encode of an identity is exactly its bits (512 characters), hex digits (128) or base64 text (88), and MakeIdentity returns exactly the identity an encoding came from; '
  'an encoding of any other length or with any character outside its alphabet makes MakeIdentity throw invalid_identity, and every function given an uninitialised identity throws.',
  [S + 'identity.cc', B + 'identity.h', S + 'encode.cc', S + 'identity_common_bits_matrix.h', B + 'convert.h'],
  [('CloserToTarget', S + 'identity.cc'), ('CommonLeadingBits', S + 'identity.cc'), ('binary::Encode, MakeIdentity', S + 'identity.cc'), ('kCommonBits', S + 'identity_common_bits_matrix.h')],
  'Routing relies on the distance order for every triple of identities and on every entry of a 65536-entry table; the tests use a few random identities and well-formed encodings.',
  'every identity, every pair and triple of identities, every text of every length, all 65536 table entries')
P('P07', 'SipHash computes SipHash-2-4 of everything fed to it',
  'A SipHash object constructed with a 16-byte seed and fed bytes by any sequence of Update calls (of any sizes, empty ones included) returns from Finalize the 64-bit SipHash-2-4 tag of the concatenated bytes, for every total length, '
  'however the bytes were divided over the calls; Finalize changes nothing, so it may be repeated and updating may go on. No read or write leaves the given range or the object.',
  [S + 'hash/algorithms/siphash.cc', B + 'hash/algorithms/siphash.h'],
  [('SipHash::Update', S + 'hash/algorithms/siphash.cc'), ('SipHash::Finalize', S + 'hash/algorithms/siphash.cc'), ('SipHash constructor', B + 'hash/algorithms/siphash.h')],
  'The tests hash a few messages; the properties are about every message length (modulo 8 and modulo 256) and every division of the message into Update calls.',
  'every seed, every message, every division of it into Update calls, Finalize at every point', over=H)
P('P03', 'Abbreviations show exactly the ends of the encoding',
  'hex::Substr and base64::Substr of a byte string or byte vector are the hex / base64 encoding itself when it has at most 14 characters, and otherwise its first 6 characters, "..", and its last 6 characters; '
  'detail::GetSubstr does the same to any text. None of them throws or reads outside the text, for any length.',
  [B + 'encode.h', S + 'encode.cc'],
  [('detail::GetSubstr', S + 'encode.cc'), ('hex::Substr, base64::Substr', B + 'encode.h')],
  'Identities and names are recognised by these abbreviations in every log; the tests look at five fixed strings.',
  'every byte string and byte vector of every length')
P('P06', 'A TaggedValue behaves exactly as the value it wraps',
  'For any value type, a TaggedValue holds exactly the value it was constructed with, copied or moved from, assigned (copy assignment to itself included, and for integers move assignment to itself) or loaded from an archive, and saves that value; copying leaves the source unchanged. '
  'operator-> points at the held value, conversion to the value type returns it, and ==, !=, <, >, <=, >= between two TaggedValues are those of the held values.',
  [B + 'tagged_value.h'],
  [('TaggedValue', B + 'tagged_value.h'), ('relational operators', B + 'tagged_value.h')],
  'The tests compare a few random values; the laws hold for every pair of values, equal ones and prefixes included.',
  'every pair of values of the instances uint32_t, long, std::string and std::vector<byte>, every operation')
P('P09', 'Errors keep their code and category on the wire',
  'The integer form of an error with value v (0 <= v < 100000) of the n-th of the ten categories Common, Asymm, Passport, Encrypt, Routing, Nfs, Drive, Vault, VaultManager, Api (n = 1..10) is -(100000 n + v), and IntToError returns the same value and category; '
  'IntToError of any integer that names none of the ten categories throws parsing_error and ErrorToInt of an error in a foreign category throws serialisation_error. Saving and loading a maidsafe_error does the same. '
  'The value of an enumerator is its place in its list, counted from 1 (from 0 for Common), as listed today, so a stored or sent number keeps its meaning. MakeError, make_error_code and make_error_condition give the enumerator\'s value and its own category, a category\'s default condition is the std::errc the code documents for that enumerator or else the error itself, '
  'the categories are ten distinct objects and each enumerator has a message of its own.',
  [B + 'error.h', S + 'error.cc', S + 'error_categories.cc', S + 'error_categories.h'],
  [('ErrorToInt, IntToError', S + 'error.cc'), ('MakeError, make_error_code, GetXxxCategory', S + 'error.cc'), ('message, default_error_condition', S + 'error_categories.cc')],
  'The tests round-trip one or two errors of each category; every value, every 32-bit integer received from a peer and foreign categories are not tried.',
  'every 32-bit integer, every value of every category, every enumerator')
P('P14', 'Conversions between asio and boost::asio lose nothing',
  'convert::ToBoost and convert::ToAsio keep every byte of a v4 or v6 address, the 32-bit scope id of a v6 address, the version of a generic address and the port of a UDP endpoint; '
  'ToStd keeps the value of an error code and puts it in the generic category; ToByteVector and ToString keep every byte in order. None of them throws.',
  [B + 'convert.h'],
  [('ToBoost, ToAsio', B + 'convert.h'), ('ToStd', B + 'convert.h'), ('ToByteVector, ToString', B + 'convert.h')],
  'The tests convert a few well-known addresses; every address byte, scope id and port has to survive.',
  'every v4 and v6 address, scope id and port, every error value, every string')
P('P15', 'The clock converts between time_t and nanoseconds exactly',
  'Clock::from_time_t(t) is t * 10^9 nanoseconds after the epoch for every t with |t| <= 9223372036, Clock::to_time_t is the whole seconds of a time point (rounded toward zero) for every time point, '
  'so to_time_t(from_time_t(t)) == t; Clock::now() is the system clock\'s time since its epoch in nanoseconds (plus the configured epoch offset, zero here).',
  [B + 'clock.h', S + 'clock.cc'],
  [('Clock::now, to_time_t, from_time_t', S + 'clock.cc')],
  'The test only checks that the current time survives a conversion; times before the epoch, fractions and large values are not tried.',
  'every time_t whose nanoseconds are representable, every 64-bit time point')
P('P10', 'Data objects keep their name, value and type, and an immutable one is named by its hash',
  'ImmutableData(v) has the value v and the name SHA-512(v); MutableData(n, v) has name n and value v; copies, moves and assignments (self assignment included) keep name and value, and '
  'loading what was saved gives them back, while ImmutableData::load throws parsing_error when the name in the archive is not the SHA-512 of the value; IsInitialised() is false for a default-constructed object, '
  'whose Value(), Name(), NameAndType() and save() throw uninitialised. TypeId() is 0 for ImmutableData and 1 for MutableData, and NameAndTypeId is ordered by name and then by type id, '
  '==, !=, <, >, <= and >= agreeing with that order.',
  [B + 'data_types/data.h', B + 'data_types/immutable_data.h', B + 'data_types/mutable_data.h', S + 'data_types/data.cc', S + 'data_types/immutable_data.cc', S + 'data_types/mutable_data.cc'],
  [('ImmutableData', S + 'data_types/immutable_data.cc'), ('MutableData', S + 'data_types/mutable_data.cc'), ('Data, NameAndTypeId', S + 'data_types/data.cc')],
  'The tests use a few names and values; ordering, naming and rejection have to hold for every pair of names, every type id and every archive received.',
  'every value, name and type id, every archive content')
P('P16', 'A scope guard runs its action exactly once, or never after Release',
  'on_scope_exit runs the action it holds exactly once when it is destroyed, whether the scope ends normally or by an exception, guards running in reverse order of construction; Release() leaves nothing to run, '
  'SetAction(a) makes a the action (SetAction() none) also after Release, an empty std::function is not called, and if the action cannot be copied into the guard it is run once and the exception propagates. '
  'RevertValue(x) gives an action that puts back the value x had when it was called, and SetValue assigns.',
  [B + 'on_scope_exit.h'],
  [('on_scope_exit', B + 'on_scope_exit.h')],
  'The tests leave a few scopes with one kind of action; exceptions from the scope, failing copies and sequences of Release and SetAction are histories they do not try.',
  'every value and every outcome of the scope, both the gcc and the clang variant of the header; actions from a lambda, a std::function and an object too large to be stored in place', H)
P('P12', 'SafeQueue is a FIFO queue for any number of threads',
  'Whatever the interleaving, every SafeQueue operation takes effect atomically at one moment while it holds the queue\'s mutex: Push appends its element and notifies a waiting consumer, TryPop removes and gives the oldest element '
  'or, exactly when the queue is empty, returns false and changes neither the queue nor its argument, WaitAndPop removes and gives the oldest element and waits only while the queue is empty, '
  'Size and Empty tell the number of elements and change nothing. So no element is lost, duplicated or overtaken; the queue is never touched without the mutex, and the mutex is free when an operation returns.',
  [B + 'safe_queue.h'],
  [('SafeQueue::Push, TryPop, WaitAndPop, Empty, Size', B + 'safe_queue.h')],
  'A test runs a few threads under one scheduler; the guarantee is about every interleaving of any number of threads and every spurious wake-up.',
  'every interleaving (other threads may do anything to the queue whenever its mutex is free) and every content, for a 64-bit and for an opaque move-only element type',
  ['inputs', 'schedules'])
P('P13', 'Active runs every task once, in order, one at a time, and all of them before its destructor returns',
  'Send appends the functor to the queue and notifies a waiting worker exactly when running_ is set, and otherwise drops it; the single worker takes the oldest functor, calls exactly that functor once with no lock held, '
  'waits only while the queue is empty and returns only after running_ was reset; only the functor queued by the destructor resets running_, and the destructor joins the worker after queueing it, '
  'so every functor sent before destruction has run, in the order of sending, when the destructor returns. The worker starts only when the object is completely initialised; running_ and the queue are only touched under their mutexes, which are always taken in the same order.',
  [B + 'active.h', S + 'active.cc'],
  [('Active::Active, ~Active, Send, Run', S + 'active.cc')],
  'The tests send a fixed number of tasks; order, single execution, shutdown and freedom from deadlock are about every interleaving of senders, worker and destructor.',
  'every interleaving of any number of senders with the worker and the destructor, every queue content',
  ['inputs', 'schedules', 'histories'])
P('P23', 'The SQLite wrapper commits or rolls back every transaction, passes values byte for byte, and turns every failure into the right error',
  'Database opens the named file once with the flags of its mode and otherwise throws db_not_present, leaking nothing; it sets synchronous OFF, journal_mode WAL and wal_autocheckpoint 0 (a failure of these is ignored) and a busy time-out of 250 ms; InsertLimit is the limit sqlite3 reports for the number of variables; CheckPoint asks for one checkpoint and never throws; the destructor closes the handle once. '
  'Transaction executes BEGIN IMMEDIATE TRANSACTION until it succeeds; SQLITE_NOTADB makes it throw db_not_present at once, after any other failure it pauses for at least 10 ms and tries again, and after 200 failed attempts it throws unable_to_handle_request. Commit executes COMMIT TRANSACTION in the same way, but tries again after every failure. '
  'The destructor executes ROLLBACK TRANSACTION once iff Commit has not succeeded, and does not throw. Statement prepares the whole query (SQLITE_NOTADB: db_not_present, other failures: db_error) and its destructor finalises it once. BindText and BindBlob bind exactly the bytes given, embedded and trailing NULs and empty values (never as NULL) included, to the given index, as text and blob, copied by sqlite3. '
  'Step returns kSqliteRow or kSqliteDone as sqlite3_step says and throws db_error for any other result; Reset, BindText and BindBlob throw db_error unless sqlite3 returns SQLITE_OK. ColumnText and ColumnBlob return exactly the bytes of the given column, none for NULL. Every error message sqlite3 passes out is freed.',
  [B + 'sqlite3_wrapper.h', S + 'sqlite3_wrapper.cc'],
  [('Database', S + 'sqlite3_wrapper.cc'), ('Transaction', S + 'sqlite3_wrapper.cc'), ('Statement', S + 'sqlite3_wrapper.cc')],
  'The sqlite test is not built here; it stores one value and lets two threads contend, and cannot make sqlite3 fail at a chosen call.',
  'every result code of every call, every history of failed attempts, every text, blob and query below 2^31 bytes, every previous content of the memory; sqlite3 itself is a contract')
P('P24', 'Reading and writing files: the whole contents or a reported failure',
  'ReadFile returns exactly the contents of the file, for every content including the empty one and any byte values, and otherwise, when the size of the file cannot be had, it cannot be opened or not all of it can be read, the error filesystem_io_error; it never throws for these. '
  'WriteFile returns true only if the file was opened for overwriting (nothing of an earlier content remains), exactly the bytes given were written, and closing it succeeded too; in every other case, also when only a buffered write or the close fails, it returns false, and it never throws. '
  'Given a path without a file name WriteFile opens nothing and returns false.',
  [B + 'utils.h', S + 'utils.cc'],
  [('ReadFile, WriteFile', S + 'utils.cc')],
  'The test writes one random file and reads it back; it never meets a file that vanishes or shrinks, a full disk, or a longer earlier file.',
  'every content below 2^40 bytes, failure of any one or several of the operations on the stream at any point; the stream classes themselves are contracts')
P('P25', 'Random data has the size and alphabet asked for and comes from one generator used by one thread at a time',
  'RandomString, RandomBytes, RandomAlphaNumericString and RandomAlphaNumericBytes of a size give exactly that many bytes, each from a draw of its own: any of the 256 byte values, respectively any of the 62 characters 0-9, A-Z, a-z, all equally likely. Given (min, max) with min <= max, '
  'the full range of 32-bit numbers included, the size is one that lies within [min, max], both ends included and each size in between possible. RandomInt32 and RandomUint32 are one draw each over the full range of the type. '
  'All of them use one generator, only while holding its mutex, which is released on return, so any number of threads may call them. It begins with the seed random_number_generator_seed reports, and set_random_number_generator_seed(s) reseeds it with s and reports s from then on. '
  'Concurrency is the number of hardware threads but at least 2. small_prng is the published generator bit for bit: Initialise(seed) gives the state (0xf1ea5eed, seed, seed, seed) after 20 rounds, RandomValue advances the state by one round and returns its last word. '
  'Spinlock begins unlocked; lock returns only once this caller has taken it, with acquire order; unlock releases it, with release order.',
  [B + 'utils.h', S + 'utils.cc'],
  [('RandomString, RandomBytes, RandomAlphaNumericString, RandomInt32', S + 'utils.cc'), ('small_prng', B + 'utils.h'), ('Spinlock', B + 'utils.h')],
  'The tests look at a few sizes and compare two outputs; which values can come out, what two threads share and the whole range of (min, max) are about every input and schedule.',
  'every size below 2^40, every min <= max, every seed and state, every sequence of values the lock word takes; the Mersenne twister and the distribution are contracts (a draw is any number within the bounds)')
P('P26', 'Hashing, encryption, compression and password derivation are the documented algorithms',
  'Hash<SHA1/SHA256/SHA384/SHA512> of a string, byte vector or BoundedString is the digest of exactly its bytes. SymmEncrypt is AES-256-GCM with the first 32 bytes of the 48-byte key-and-IV as key and its last 16 as IV, the full 16-byte tag '
  'appended; SymmDecrypt undoes it, and throws symmetric_decryption_error whenever the tag does not verify. Compress(x, level) is a gzip stream at that level and throws invalid_argument for a level above 9, Uncompress undoes it and throws '
  'uncompression_error for a malformed stream. CreateSecurePassword gives 48 bytes of PBKDF2-HMAC-SHA512 of the password with the salt followed by the label, in 10000 + pin % 10000 iterations. '
  'An uninitialised argument makes each of these throw uninitialised. InfoDisperse and SecretShareData throw invalid_argument unless 2 <= threshold <= number of shares and there are at least 3 shares; InfoRetrieve and SecretRecoverData do so when there are no parts. '
  'Otherwise part i is the number i in four big-endian bytes followed by the i-th piece of the (threshold, number of shares) information dispersal, respectively randomised secret sharing, of all of the data; '
  'InfoRetrieve and SecretRecoverData of k parts of equal size (at least four bytes) feed what follows the first four bytes of each part to the recovery from k pieces, on the channel these bytes name, and return exactly what it recovers.',
  [B + 'crypto.h', S + 'crypto.cc'],
  [('Hash', B + 'crypto.h'), ('SymmEncrypt, SymmDecrypt, Compress, Uncompress', S + 'crypto.cc'), ('CreateSecurePassword', B + 'crypto.h'), ('InfoDisperse, InfoRetrieve, SecretShareData, SecretRecoverData', S + 'crypto.cc')],
  'The tests use a few known vectors and round trips; which bytes of the key become key and IV, what is rejected and what is never read are about every input.',
  'every input of every length, every key-and-IV, every level, every share count and threshold; the Crypto++ primitives themselves are assumed to be what their names say')

P('P08', 'What is fed to a hash algorithm is exactly the value',
  'Calling an algorithm h derived from HashAlgorithmBase as h(a, b, ...) or h & a & b feeds Update, in order and on top of what was fed before, the encoding of each argument and nothing else: an integer, bool or character gives its sizeof bytes in native order; '
  'a float or double its bytes, with -0 as +0 and no other value altered; a string, string_ref, vector, array, C array, initializer_list, iterator_range, list, forward_list, set or map of any length the encodings of all its elements in order followed by the number of elements as 8 bytes; '
  'a pair or tuple its components in order, never padding; a type with HashAppend (member or not) what that feeds; a type which opted in to serialize/save (member or not) the members in the order these name them, with its HashVersion passed as version, also when the value is const. '
  'So equal values always feed equal bytes, whatever memory they lie in. SeededHash feeds an algorithm constructed with its own 16-byte seed, which calls never change and copies share: equal values give equal digests.',
  [B + 'hash.h', B + 'hash/hash_contiguous.h', B + 'hash/hash_numeric.h', B + 'hash/hash_range.h', B + 'hash/hash_data_range.h', B + 'hash/hash_pair.h', B + 'hash/hash_tuple.h', B + 'hash/hash_use_serialize.h', B + 'hash/algorithms/hash_algorithm_base.h', B + 'hash/wrappers/seeded_hash.h'],
  [('dispatch of h(...) and h & x', B + 'hash/algorithms/hash_algorithm_base.h'), ('integers and padding-free pairs', B + 'hash/hash_contiguous.h'), ('floating point', B + 'hash/hash_numeric.h'), ('ranges', B + 'hash/hash_range.h'), ('contiguous data', B + 'hash/hash_data_range.h'), ('SeededHash', B + 'hash/wrappers/seeded_hash.h')],
  'The tests compare digests of a few values; padding, the sign of zero, empty and long ranges, and const values with a version need every value of every type.',
  'all values, lengths and earlier streams, for 55 representative types; element types are an opaque class with its own HashAppend, integers, doubles and padded pairs')

P('P11', 'LruCache holds what was added until it is evicted, least recently used first',
  'Add(key, value) of a key the cache holds changes nothing. Otherwise, when the cache holds capacity entries, it first evicts the least recently used one, then evicts the least recently used entry for as long as a time to live is set (non-zero) and that entry is older than it, '
  'and then holds the key with its value as the most recently used; a cache of capacity 0 holds nothing. Get(key) returns the value of the key and makes it the most recently used without renewing its age, or no_such_element when the key is not held (changing nothing); '
  'Check(key) tells whether the key is held, size() the number of keys held, Delete(key) removes that key only, and none of them changes the order of the other keys. So the size never exceeds the capacity (unlimited when made with a time to live only), and no entry is evicted for any other reason. '
  'The same holds for LruCache<Key, void>, which has keys only.',
  [B + 'containers/lru_cache.h'],
  [('LruCacheBase::PrepareToAdd, RemoveOldestElement, CheckTimeExpired', B + 'containers/lru_cache.h'), ('LruCache::Get, Add, Delete', B + 'containers/lru_cache.h')],
  'The tests add a hundred consecutive keys; which entry goes, and when, depends on the whole history of Add, Get and Delete and on the clock.',
  'every state any history of calls can lead to (the invariant between the key order and the map is proved preserved), every key, capacity, time to live and clock reading; for 64-bit keys and values', H)

P('P17', 'A menu shows what was added and every choice runs exactly the item shown under its number',
  'A MenuItem has the name and operation it was made with; an empty name is refused with invalid_argument, and so is a child whose name another child of the same item has, which leaves the item as it was. Any other child is added last: it has that name, this parent and no children, and the earlier children stay where they are. '
  'Child(i) is the i-th child added, and throws for every other i; DoOperation runs the operation once, or nothing if there is none. Menu::Run shows the item it is at, a numbered line for each of its children in order and, below the main menu, the line 99 with the name of the item it goes back to, and asks for a number. '
  'Number i from 1 to the number of children goes to child i, and 99 below the main menu goes back; either runs the operation of the item it comes to exactly once, and an item without children is left again for its parent, so the choices shown next are those of the item the menu is at. Any other number, and anything that is no number, runs nothing and asks again. '
  '0 ends Run with 0; an operation that throws ends it with the code of its error, or of unknown if it is no maidsafe_error; the end of the input ends it with a code other than 0. Run called again goes on where the menu was. A menu without items can be run. CLI::GetPassword, with nothing echoed, returns the SHA-512 of the text entered; told to repeat, it asks in pairs until both texts are the same, and failing input makes it throw.',
  [B + 'menu.h', B + 'menu_item.h', S + 'menu.cc', S + 'menu_item.cc', S + 'cli.cc'],
  [('Menu::Run', S + 'menu.cc'), ('MenuItem::AddChildItem, Child, ShowChildrenNames', S + 'menu_item.cc')],
  'No test runs a menu; which item a number leads to depends on the tree, on where earlier choices led and on what is entered.',
  'every name and every entered number; items with up to 4 children, a tree of three levels, an empty menu and a menu of one item are bounds: from each item of the tree every two choices (three in the thorough tier), with every operation returning or throwing; passwords of any length, two pairs of them; reading from the terminal (CLI::Get) and the log stream are contracts')
P('P18', 'Memory pages stay locked exactly while something on them needs it, and freed secrets are wiped',
  'LockedPageManagerBase over any sequence of LockRange(p, n) and matching UnlockRange(p, n): a page is asked to be locked when the first range touching it arrives and asked to be unlocked when the last one leaves, never twice in a row, one whole page per request, every page that any byte of the range lies on and no other; '
  'GetLockedPageCount is the number of pages locked; a range of no bytes touches no page; every call is one critical section under the mutex. MemoryPageLocker asks mlock / munlock for exactly that range and returns true iff the answer is 0. '
  'safe_allocator::allocate(n) locks the pages of all n elements; deallocate(p, n) sets every byte of all n elements to 0, then unlocks their pages once, then hands the block back; zero_after_free_allocator does so without locking; a null pointer is left alone.',
  [B + 'authentication/detail/safe_allocators.h'],
  [('LockRange, UnlockRange, GetLockedPageCount, MemoryPageLocker, safe_allocator, zero_after_free_allocator', B + 'authentication/detail/safe_allocators.h')],
  'Nothing in the repository tests these; page counts are about every history of overlapping ranges and the wipe about every length.',
  'every address and size below 2^47, every earlier content of the counts (below 2^31 - 3 per page), page sizes 4 KiB, 16 KiB, 64 KiB and 2 MiB; element sizes 1 and 16 for the allocators; std::map, std::mutex and operator new are modelled by contracts')

P('P19', 'Credentials give back the text they were given and derive the same keys on every machine',
  'SecureString::string() is everything appended since construction or the last Clear, in order. SecureInputString(text) with a non-empty text is finished at once, gives back exactly that text from string(), SHA-512 of it from Hash<SHA512>() and std::stoul of it from Value(); an empty text throws outside_of_bounds. '
  'A default-constructed or cleared one is not finished and string(), Hash() and Value() throw symmetric_encryption_error; Finalise() with nothing entered throws outside_of_bounds. '
  'It can be entered in pieces: Insert(i, x) puts piece x in front of the piece at i (or at i if there is none), Remove(i, n) takes n pieces away, Finalise makes string() all pieces in order; a finished text is edited character by character. Finalise with a gap between the positions and Remove of what is not there throw invalid_argument. '
  'CreateSecurePassword(credentials) is crypto::CreateSecurePassword(password text, SHA512(SHA512(pin text) + password text), uint32(pin value)), that is PBKDF2-HMAC-SHA512 over 10000 + pin % 10000 rounds with the salt followed by "MaidSafe Version 1 Key Derivation". '
  'Obfuscate(credentials, data) has the length of data, and byte i is data[i] xor key[i mod 48] for the 48-byte key derived likewise from the keyword text with salt SHA512(password text + SHA512(pin text)) and uint32(2 * pin value), so it is its own inverse. '
  'A missing (null) credential throws uninitialised, an unfinished one uninitialised or symmetric_encryption_error, and credentials that were moved work as before.',
  [S + 'authentication/user_credential_utils.cc', S + 'authentication/detail/secure_string.cc', B + 'authentication/detail/secure_string.h', B + 'authentication/user_credentials.h'],
  [('CreateSecurePassword, Obfuscate', S + 'authentication/user_credential_utils.cc'), ('SecureString', S + 'authentication/detail/secure_string.cc'), ('SecureInputString', B + 'authentication/detail/secure_string.h'), ('UserCredentials', B + 'authentication/user_credentials.h')],
  'The data may have any length and the texts any content; a test compares a few short ones, and an account becomes unreadable if one byte of the derivation changes.',
  'every text and data length, every pin value; SHA-512, PBKDF2, the masking cipher and its inverse, std::stoul and the page locks are contracts on CryptoPP, the standard library and property P18; entry in pieces is checked for sequences of up to four edits (bounded), with pieces of any length')

P('P20', 'A tcp Connection frames, limits and delivers messages intact and in order, and closes once; a Listener hands over every connection',
  'Connection::Send throws CommonErrors::outside_of_bounds for an empty message and VaultManagerErrors::ipc_message_too_large for one above MaxMessageSize (1 MiB), queueing nothing; any other message is queued last and the queue is written in order, one message at a time, each as its size in 4 bytes (most significant first) followed by its bytes, the next one beginning when a write has succeeded. '
  'After Start (a second Start does nothing) the connection repeatedly reads 4 bytes as a size and then exactly that many bytes, and delivers each message received once, with exactly those bytes, in order; a size above the maximum is never read but closes the connection, as does any failed read or write. '
  'Closing, for whatever reason and however often, shuts down and closes the socket once and calls the closed functor once (not if Start was not called). Everything after construction that uses the socket, the queue or the functors happens in the strand, whichever threads call; outstanding operations keep the object and their buffers alive. '
  'MakeShared with a port connects to the IPv6 loopback address or, iff IPv6 is not supported, to the IPv4 one, and throws failed_to_connect otherwise. '
  'Listener::MakeShared tries the desired port and up to ten following ones (none above 65535), in order, until it listens on the loopback address (IPv6, or IPv4 iff IPv6 is not supported), and throws failed_to_listen if none works; ListeningPort is the port. Each accepted connection is passed to the functor once, a failed accept is passed over, and another accept follows; after StopListening (any number of times) the acceptor is closed once, in the strand, and nothing more is accepted.',
  [B + 'tcp/connection.h', S + 'tcp/connection.cc', B + 'tcp/listener.h', S + 'tcp/listener.cc'],
  [('Connection::MakeShared, Start, Send, Close', S + 'tcp/connection.cc'), ('ReadSize, ReadData, DoSend, EncodeData, DoClose', S + 'tcp/connection.cc'), ('Listener::MakeShared, StopListening, HandleAccept', S + 'tcp/listener.cc')],
  'The test exchanges a few small messages; it is not built here, and no test chooses the schedule, the errors, hostile sizes, or the absence of IPv6.',
  'every message and size, every queue length, every error code, owner alive or gone, any message left in the buffers by the one before; asio sockets, strands and asynchronous operations are contracts, and the different steps of setting up an acceptor fail one kind per run (any kind at the last port)')
P('P21', 'AsioService runs exactly the threads asked for and Stop joins each of them once',
  'AsioService(n) and BoostAsioService(n) throw invalid_argument for n == 0; otherwise they start n threads, each running the service once, with a work object that keeps them from ending, and ThreadCount() is n. If one of the threads cannot be started the constructor throws, '
  'having joined those that were, with the service still alive while they ran. Stop destroys the work object and then joins every thread exactly once, so when it returns all handlers posted before have run, no thread is left and ThreadCount() is 0; stopping again, from any thread, does nothing. '
  'Called in one of the service\'s own threads, while no other Stop is under way, it throws cannot_invoke_from_this_thread and the service keeps running. The destructor stops the service, and destroys it only after its threads have ended. '
  'Any number of threads may call Stop at once: the threads and the work object are touched only under the mutex, which is always released. An exception thrown by a handler is not swallowed.',
  [B + 'asio_service.h'],
  [('IoService', B + 'asio_service.h')],
  'The tests start one service and stop it; which thread fails to start, who calls Stop and when are about every thread count and schedule.',
  'every number of threads up to 2^40, every thread that cannot be started, every thread Stop is called in and every state other threads leave at the mutex (running or stopped); io_service, its work object, std::thread and std::mutex are contracts')
P('P22', 'Serialise and Parse are exact inverses over a fixed byte format, and data that is cut short is refused',
  'Serialise and ConvertToVectorStream append, in order and to whatever the stream holds, for each argument: an arithmetic value as its sizeof bytes in native order; a std::string or vector of bytes as its length in 8 bytes followed by its bytes; binary_data as the bytes themselves; a boost::filesystem::path as its native string; '
  'an asio or boost::asio IP address as one byte 4 or 16 followed by its 4 or 16 bytes in network order. Serialise returns the whole contents of its stream. ConvertToString does the same for a std::string. Parse and ConvertFromString give back exactly the values encoded, read no byte beyond the encoding and ignore what follows; '
  'if the data ends before the encoding does they throw cereal::Exception, and so do the writers if the stream takes fewer bytes than it is given; an address whose first byte is neither 4 nor 16 makes the reader throw parsing_error.',
  [B + 'serialisation/serialisation.h', B + 'serialisation/binary_archive.h', B + 'serialisation/types/asio_and_boost_asio.h', B + 'serialisation/types/boost_filesystem.h'],
  [('Serialise, Parse, ConvertToVectorStream, ConvertToString, ConvertFromString', B + 'serialisation/serialisation.h'), ('saveBinary, loadBinary', B + 'serialisation/binary_archive.h'), ('detail::Save, detail::Load', B + 'serialisation/types/asio_and_boost_asio.h')],
  'The tests round-trip a few values; no test looks at truncated data, at what is already in the stream, or at every value.',
  'every value, every length below 2^40, every earlier content and position of the stream, every point of truncation; cereal itself is executed, the stream buffers are modelled as byte sequences')
