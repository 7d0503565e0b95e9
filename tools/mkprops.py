import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E='elusiv/src/'; W='elusiv-warden-network/src/'; S='shared/'
p("N01","The nullifier set of one child account is an exact ordered set",
"Starting from an emptied set, after any sequence of insertions a lookup succeeds exactly for the values that are in the set, a value that is already present is rejected without changing anything, and the reported minimum and maximum are those of the set. While there is room every new value is kept; once the set is full, inserting a new value below the maximum keeps it and hands back exactly the evicted maximum, and a value above the maximum is handed back unchanged, so the set never loses any other value.",
["inputs","histories"],"every insertion history and every key, up to the set's full capacity",
"Tests insert permutations of at most a handful of keys; the linked list with cached mid pointers behaves differently at each length, insertion position and at full capacity.",
[E+"map.rs",E+"types.rs"],[("sorted doubly linked list with cached mid pointers",E+"map.rs binary_search/insert_at/update_mid_ptrs/get_ptr"),("order on 256-bit values",E+"types.rs OrdU256")],
["results of insertion and lookup","minimum and maximum","contents in order"])
p("N02","No nullifier hash can be spent twice in a tree, whatever child account it is in",
"For one Merkle tree, a nullifier hash whose insertion succeeded is never accepted again, whether it is in a child account or waiting to be moved to the next one, and the check made before a verification agrees with the insertion. Every successful insertion adds exactly that hash to the tree's spent set and counts it once; values displaced from a full child account are never lost or duplicated while they are moved on. Each value is kept in the child account that a later lookup for it will search.",
["inputs","histories"],"all histories of insertions and moves, all nullifier hashes, all fill levels of the child accounts",
"Tests fill artificial accounts with a few values and check selected transitions; double spending needs a history and a fill level no test enumerates.",
[E+"state/nullifier.rs"],[("child account selection by maxima of full accounts",E+"state/nullifier.rs find_child_account_index"),("pending moved values",E+"state/nullifier.rs try_insert_nullifier_hash/move_nullifier_hashes_to_next_account")],
["result of the admission check","result of insertion","set of hashes reported as spent"])
p("Q01","The commitment and metadata queues are exact bounded FIFO queues",
"For every sequence of operations, the elements come out in the order they went in, each exactly once; an enqueue fails, changing nothing, exactly when the queue already holds one element less than its number of slots, and reading or removing more elements than are present fails without changing anything. Length, emptiness, membership and indexed views always agree with the elements currently queued, including after wrap-around.",
["inputs","histories"],"all histories of enqueue, dequeue, view and remove, at every head and tail position",
"Tests run short sequences from an empty queue; wrap-around positions and full/empty boundaries at every offset are not sampled.",
[E+"state/queue.rs"],[("ring indexes modulo the slot count",E+"state/queue.rs RingQueue")],["queue contents through view","error results"])
p("Q02","The recent-commitment buffers reject exactly the recently seen values",
"A value offered to a recent-commitment buffer is rejected, changing nothing, exactly when it equals one of the most recently accepted values still held, and is otherwise stored, displacing only the oldest value once the buffer is full. Membership and position queries agree with the values held, comparing whole aligned values only.",
["inputs","histories"],"all histories of accepted and rejected values, including after the buffer has wrapped",
"Tests insert a few values; a byte-wise search can match across element boundaries and the wrap-around order depends on the history.",
[E+"buffer.rs",E+"bytes.rs"],[("ring buffer with duplicate check",E+"buffer.rs RingBuffer/buffer_account"),("aligned byte search",E+"bytes.rs contains/find")],["result of insertion","position of a value","stored values"])
p("Q03","Commitment batches are formed and consumed all-or-nothing",
"A batch for insertion is exactly the first 2^r queued commitments, where r is the largest minimum batching rate among them, and all of them carry the same fee version. Starting the hashing of a batch removes exactly those commitments from the queue, appends exactly their metadata in order and stores exactly these commitments; when it cannot start, with or without the caller tolerating failure, no queued commitment or metadata is consumed.",
["inputs","histories"],"all queue contents, batching rates 0 to 4, tree positions and failure points",
"Tests use one or two fixed batches; the failure points between dequeueing and setup, and mixed rates, are not exercised.",
[E+"state/commitment.rs",E+"processor/commitment.rs"],[("batch selection",E+"state/commitment.rs next_batch"),("consumption",E+"processor/commitment.rs init_commitment_hash")],["queues before and after","hashing account contents"])
p("M01","A finished batch leaves a consistent Merkle tree",
"For every batching rate and every aligned position, after the hashing of a batch is finalized every tree node on or below the path of the batch equals the hash of its two children, left before right, with the batch's commitments as the leaves in order and previously stored siblings used unchanged. No other node changes, and the next position advances by exactly the batch size.",
["inputs","histories"],"all batching rates 0 to 4, all aligned positions in the tree, all leaf and sibling values",
"Tests compare a few positions and rates with a full recomputation; the index arithmetic must be right at all 2^20 positions.",
[E+"state/commitment.rs",E+"commitment/mod.rs",E+"state/storage.rs"],[("hash input selection and result storage",E+"state/commitment.rs next_hashing_state/save_finished_hash"),("write-back",E+"state/commitment.rs update_mt")],["tree nodes through get_node","next position"])
p("M02","Tree nodes and openings are addressed exactly",
"Every node of the tree has its own storage slot inside an existing child account, different nodes never share a slot, and writing one node changes no other node. Reading a node returns the stored value when leaves have been inserted under it and the empty-subtree value of its level otherwise, and the opening of a leaf lists the sibling at each level from the leaf upwards.",
["inputs"],"all levels and indexes of the tree and all numbers of inserted leaves",
"Tests touch selected nodes; a slot collision or an off-by-one in the populated range shows only at particular positions among two million.",
[E+"state/storage.rs"],[("array index and child account index",E+"state/storage.rs mt_array_index/account_and_local_index"),("default values",E+"state/storage.rs use_default_value/EMPTY_TREE")],["node values","openings"])
p("M03","The empty-tree constants are the Poseidon hashes of empty subtrees",
"The value used for an empty leaf is the Poseidon hash of two zeros, and the value used for an empty node at each higher level is the Poseidon hash of two empty nodes of the level below it. The zero commitment the program refuses is the Poseidon hash of that leaf value and zero.",
["configurations"],"all 21 levels",
"A unit test may compare some constants with recomputation but cannot show the hash function itself follows its specification.",
[E+"state/storage.rs",E+"commitment/poseidon_hash.rs"],[("constant table",E+"state/storage.rs EMPTY_TREE")],["constants"])
p("M04","Only roots the active tree really had are accepted as its root",
"A root is accepted for the active tree only if the tree has or had that root since the last tree rotation, never because of stale data from before the rotation or of unused history entries. The current root is always accepted once a batch is finalized; with the stored nodes at hand only the current root is accepted, and without them exactly the last 100 roots are.",
["inputs","histories"],"all roots, root histories and tree states",
"Tests check one current root and one wrong root.",
[E+"state/storage.rs"],[("root check",E+"state/storage.rs is_root_valid")],["acceptance result"])
p("H01","Hash computations run every round once, in order, and cannot be finalized early",
"A deposit or batch hash computation executes each of its rounds exactly once in increasing order, split over the scheduled number of transactions, and rejects further steps afterwards. Its result can be finalized only after all scheduled steps have run and only while the computation is active, each finalization step being applied once and in order.",
["histories"],"all interleavings of compute and finalize calls, all batching rates",
"Tests drive the computation from start to end in the intended order; skipped, repeated or early calls are only sampled.",
[E+"commitment/mod.rs",E+"processor/commitment.rs",S+"elusiv-computation/src/lib.rs",S+"elusiv-proc-macros/src/elusiv_hash_compute_units.rs"],[("instruction and round counters",E+"commitment/mod.rs compute_base_commitment_hash_partial/compute_commitment_hash_partial"),("finalization guards",E+"processor/commitment.rs")],["instruction and round counters","error results"])
p("D01","A deposit charges exactly the advertised amounts and records exactly the request",
"When a deposit is accepted, the depositor has paid exactly the amount to the pool, the network fee to the fee collector and the computation fee less subvention to the fee payer, the fee payer has funded the pool with the computation fee, and the fee collector has paid the subvention. The stored computation holds exactly the requested base commitment, amount, token, recent index, metadata, fee version, batching rate and fee payer, starting at its first step.",
["inputs"],"all requests, prices, fees and tokens that are accepted",
"Tests use one fee table and a few amounts.",
[E+"processor/commitment.rs",E+"state/commitment.rs"],[("deposit instruction",E+"processor/commitment.rs store_base_commitment"),("setup",E+"state/commitment.rs BaseCommitmentHashingAccount::setup")],["transfers made","hashing account contents"])
p("D02","Invalid deposits are refused",
"A deposit is refused without moving funds when its amount is outside the token's limits, a commitment value is not a field element, the base commitment is the zero commitment or was recently used, the recent index lies outside the accepted window of the tree, or the fee version or batching rate is not the current one.",
["inputs"],"all requests and program states",
"Tests try one bad value per check; combined and boundary values are not enumerated.",
[E+"processor/commitment.rs"],[("guards",E+"processor/commitment.rs store_base_commitment/verify_recent_commitment_index")],["instruction result","account changes"])
p("D03","A finished deposit is queued exactly once and reimburses only its fee payer",
"Finalizing a deposit succeeds only after its hash computation is complete, for its own fee payer and fee version, and then queues exactly one commitment with the computed hash, its metadata, fee version and batching rate, pays the computation fee to that fee payer and closes the computation so that it cannot be finalized again.",
["inputs","histories"],"all account states and call orders",
"Tests check a small set of wrong callers and states.",
[E+"processor/commitment.rs"],[("finalization",E+"processor/commitment.rs finalize_base_commitment_hash")],["queue contents","balances","account closed"])
p("F01","Fees follow their formulas without wrap-around",
"For every fee table the program accepts and every amount a transaction may carry, each computed fee equals its formula over the integers: per-step compensation times steps, rounded up when shared by a batch, and basis points of the amount rounded down; no result is altered by overflow.",
["inputs"],"all fee tables, amounts, batching rates and preparation step counts",
"Tests evaluate a few fee tables; arithmetic overflow and rounding depend on the values.",
[E+"state/fee.rs",E+"bytes.rs"],[("fee formulas",E+"state/fee.rs ProgramFee/BasisPointFee"),("rounding",E+"bytes.rs div_ceiling_u64")],["fee values"])
p("F02","An accepted fee table never subsidizes more than it charges",
"A fee table is accepted only if, for every batching rate the program supports, the deposit and proof subsidies do not exceed the computation fees they are deducted from and the declared number of proof transactions is the real one.",
["inputs","configurations"],"all fee tables and all supported batching rates",
"Tests use one valid and a few invalid tables; the condition must hold at every supported batching rate.",
[E+"state/fee.rs",E+"processor/accounts.rs"],[("validity check",E+"state/fee.rs ProgramFee::is_valid"),("new fee version",E+"processor/accounts.rs init_new_fee_version")],["acceptance result"])
p("F03","Token amounts never mix currencies or wrap",
"Adding or subtracting two amounts succeeds exactly when both are in the same currency and the true result fits, and then is the true result; otherwise it fails. An amount outside the minimum and maximum of its token, or of an unknown token, is refused.",
["inputs"],"all amounts and token ids",
"Tests sample sums and differences.",
[S+"elusiv-types/src/tokens.rs"],[("checked token arithmetic",S+"elusiv-types/src/tokens.rs")],["results and errors"])
p("F04","Lamport fees convert to token amounts at the quoted price",
"Converting a lamport amount into a token uses exactly the quoted SOL and token prices scaled to the token's precision, fails instead of returning a wrapped, stale or negative result, and leaves lamport amounts unchanged when the token is SOL itself.",
["inputs"],"all amounts, prices and exponents accepted from the oracle",
"Tests use fixed prices.",
[S+"elusiv-types/src/tokens.rs"],[("conversion",S+"elusiv-types/src/tokens.rs into_token / TokenPrice")],["converted amount"])
p("C01","Hash step rewards are paid once per executed step",
"Each successful batch hashing step pays its caller exactly the per-step compensation of the fee version of the batch, from the pool, and advances the computation by one step; a step that is refused pays nothing.",
["inputs","histories"],"all batches, fee versions and call orders",
"Tests run the intended order only.",
[E+"processor/commitment.rs"],[("compute instruction",E+"processor/commitment.rs compute_commitment_hash")],["balances","step counter"])
p("V01","A verification passes through its stages only in order",
"A verification can have its fee transferred only when new, its proof set only after the fee transfer and only once, its send finalized only after the proof is set and the verdict is known, its nullifiers inserted only after that, and its payout made only once at the end; any instruction in a wrong stage fails without changing anything. Fee transfer, proof setup and payout are bound to the fee payer who started the verification.",
["histories","inputs"],"all orders of verification instructions by all callers",
"Tests cover the intended order and a few wrong ones.",
[E+"processor/proof.rs",E+"state/proof.rs"],[("stage guards",E+"processor/proof.rs"),("stage field",E+"state/proof.rs VerificationState")],["stage after each instruction","error results"])
p("V02","A verification starts only with admissible public inputs",
"A verification is opened only if its first input names a root, there are at most four inputs over at most two distinct trees, every root is valid for the tree given for it, no two inputs of the same tree share a nullifier hash, none of them is already spent in its tree, the output is not the zero commitment, the recent index is in the accepted window and the optional fee does not exceed the amount.",
["inputs"],"all public inputs, tree indices and program states",
"Tests change one field of a valid request at a time.",
[E+"processor/proof.rs"],[("admission check",E+"processor/proof.rs check_join_split_public_inputs/init_verification")],["instruction result"])
p("V03","A new verification records exactly what was requested, once",
"Opening a verification stores exactly the request, tree indices, verifying key id, fee payer and public signals of that request, in the circuit's order, starts at the first stage, and adds the output commitment to the recent outputs, refusing one that was recently used. Two verifications for the same nullifier hashes cannot be opened together unless the caller explicitly skips the guard account that already exists.",
["inputs","histories"],"all requests and repeated openings",
"Tests compare a few recorded fields.",
[E+"processor/proof.rs",E+"state/proof.rs",E+"types.rs"],[("setup",E+"state/proof.rs VerificationAccount::setup"),("duplicate account",E+"processor/proof.rs init_verification")],["verification account contents"])
p("V04","The verification fee covers its costs before verification starts",
"The fee transfer succeeds only if the offered fee covers commitment hashing, proof verification and network fee less the subvention at the quoted price, the fee version is current and the amount covers rent and optional fee where they apply. It then records exactly these components and moves exactly the hashing fee and any account rent from fee payer to pool and the subvention from fee collector to pool.",
["inputs"],"all requests, fees and prices",
"Tests use a fixed fee table and price.",
[E+"processor/proof.rs"],[("fee transfer",E+"processor/proof.rs init_verification_transfer_fee")],["transfers","recorded fee components"])
p("V05","A send is finalized only for the recipient and data fixed by the proof",
"A send is finalized only if the hash of recipient, identifier, encryption data, reference, account kind, metadata, optional fee and memo equals the hash in the verified public inputs, the caller's total amount and token match, and the caller's tree position is the current one and not ahead of the next commitment. The recipient recorded for the payout is exactly that recipient, and two such data differ in the bytes that are hashed unless they are equal (an absent memo counts as an empty one, an absent reference as zeros).",
["inputs"],"all finalization data, memos and accounts",
"Tests alter single fields.",
[E+"processor/proof.rs",E+"types.rs"],[("input hash",E+"types.rs generate_hashed_inputs"),("finalization",E+"processor/proof.rs finalize_verification_send")],["instruction result","recorded recipient"])
p("V06","Every input nullifier is inserted once before a payout can happen",
"A payout becomes possible only after every input's nullifier hash has been inserted, each exactly once and in order, into the nullifier account of its tree and all displaced nullifiers have been moved on; a failing insertion does not advance the verification.",
["histories","inputs"],"all numbers of inputs and all interleavings with other verifications",
"Tests insert one or two nullifiers.",
[E+"processor/proof.rs"],[("insertion instruction",E+"processor/proof.rs finalize_verification_insert_nullifier")],["spent set","stage"])
p("V07","A rejected proof pays no one but the fee collector",
"When the verdict of a verification is negative, finalization inserts no nullifier, queues no commitment, pays nothing to recipient, fee payer or optional collector, releases the output commitment for reuse and hands the prepaid fees to the fee collector.",
["histories","inputs"],"all requests with a negative verdict",
"Tests check one rejected proof.",
[E+"processor/proof.rs"],[("rejected branch",E+"processor/proof.rs finalize_verification_send/finalize_verification_transfer_lamports/_token")],["balances","queue","buffer"])
p("V08","A successful lamports payout conserves the verified amount",
"The lamports payout pays, out of the pool, exactly the verified amount less the optional fee to the verified recipient (or to the fee payer who must forward it in the last instruction), the optional fee to the named collector, the recorded fees to fee payer and fee collector, and nothing else. It queues the output commitment once and closes the verification so that it cannot be paid twice.",
["inputs","histories"],"all requests and recorded fees",
"Tests check balances for one or two requests and never all flag combinations.",
[E+"processor/proof.rs"],[("payout",E+"processor/proof.rs finalize_verification_transfer_lamports")],["balances","queue"])
p("V09","A successful token payout conserves the verified amount",
"The token payout pays, out of the pool's token account, exactly the verified amount less optional fee and any account rent to the verified recipient's account (or to the fee payer who must forward it, or to the fee collector if the recipient's account is unusable), the optional fee to the named collector, and the recorded fees and rent compensation to fee payer and fee collector, and nothing else. It queues the output commitment once and closes the verification.",
["inputs","histories"],"all requests, recorded fees and recipient account states",
"Tests check one or two requests and never all flag combinations.",
[E+"processor/proof.rs"],[("payout",E+"processor/proof.rs finalize_verification_transfer_token")],["token transfers","balances","queue"])
p("V10","Finalization must be followed by its payout in the same transaction",
"Finalizing a send succeeds only if it is followed, in the same transaction, by any number of nullifier insertions and then the payout of the right kind, all of this program and for the same verification; and when a forwarded payment or memo is required, the transaction must contain exactly that instruction at the required place.",
["inputs"],"all instruction sequences of a transaction",
"Tests try a handful of sequences.",
[E+"processor/proof.rs",E+"processor/utils.rs"],[("instruction checks",E+"processor/proof.rs enforce_finalize_send_instructions_inner/enforce_instruction/get_memo_from_instructions")],["instruction result"],hook="private functions; reached through instructions with a crafted instructions sysvar")
p("V11","Public signals are encoded in the circuit's order without ambiguity",
"The public signals of a send are, in order, four nullifier hashes, four roots, amount with fee, output commitment, recent index, fee version, token and input hash as the circuit expects, with absent inputs and roots as zero padding. Two requests whose nullifier hashes, roots, total amount, output commitment, recent index, fee version, token or input hash differ have different signals.",
["inputs"],"all requests",
"Tests compare one request with one expected list.",
[E+"types.rs"],[("encoding",E+"types.rs public_signals")],["signals"])
p("V12","The proof verdict is the Groth16 verdict",
"A verification is recorded as valid exactly when the Groth16 pairing equation holds for the stored proof, public inputs and verifying key, however the computation is split over transactions (for proof points that are elements of their groups, the G2 point not being zero).",
["inputs"],"all proofs, public inputs and verifying keys",
"Tests verify a few sample proofs.",
[E+"proof/verifier.rs"],[("partial pairing computation",E+"proof/verifier.rs")],["verdict"])
p("V13","Public-input preparation is split without losing or repeating work",
"For every vector of public inputs, the scheduled preparation steps cover all the rounds of all inputs exactly once, none exceeds the per-transaction budget, and the number of steps fits the account. Executed step by step they produce the same prepared inputs as a single pass, and the rounds of the later phases each run once, in order, on what the previous round left.",
["inputs"],"all public input vectors",
"Tests check a few vectors.",
[E+"proof/verifier.rs"],[("schedule",E+"proof/verifier.rs prepare_public_inputs_instructions"),("execution",E+"proof/verifier.rs verify_partial, prepare_public_inputs, combined_miller_loop, final_exponentiation")],["schedule"])
p("G01","Verifying keys change only by their authority and never once frozen",
"Once a verifying key is frozen, no instruction changes its data, version, authority or accounts. Before that, every change needs the signature of the current authority when one is set; data packets change only their own range of the pending key, and activating a pending key replaces the active one and increases the version by one.",
["inputs","histories"],"all sequences of verifying key instructions by all signers",
"Tests check a few orders and signers.",
[E+"processor/vkey.rs",E+"state/vkey.rs"],[("authority check",E+"processor/vkey.rs verify_vkey_modification"),("packets",E+"processor/vkey.rs set_vkey_data")],["key accounts","error results"])
p("G02","Child accounts are registered once and checked",
"A child account is accepted only if it has exactly the expected size, is owned by the program, is rent exempt and is not yet in use, and its slot in the parent is free; afterwards the slot refers to it and it is marked used. Reads and writes through the parent reach only the registered child's payload.",
["inputs","histories"],"all accounts offered and all slots",
"Tests offer a few wrong accounts.",
[E+"processor/accounts.rs",S+"elusiv-types/src/accounts.rs"],[("registration",E+"processor/accounts.rs setup_child_account/verify_extern_data_account"),("in-use flag",S+"elusiv-types/src/accounts.rs ChildAccount")],["registration result","child data"])
p("G03","Instructions accept only the program's own accounts at their derived addresses",
"An instruction that takes a program account by role rejects every account at an address other than the one derived for that role and index, and a derived address at which the program has not created an account. It rejects every missing required signature. A rejected instruction changes nothing.",
["inputs"],"all instructions and account substitutions",
"Tests substitute a few accounts in a few instructions.",
[E+"instruction.rs",S+"elusiv-derive/src/elusiv_instruction.rs",S+"elusiv-types/src/accounts.rs"],[("generated account checks",S+"elusiv-derive/src/elusiv_instruction.rs")],["instruction result"])
p("G04","A tree is rotated only when full, keeping its root",
"The active tree is replaced only when it is full or the next batch would fill it, only for the current tree index; then the root of the closed tree is stored for its nullifiers, the tree count increases by one and the new tree is empty.",
["inputs","histories"],"all tree fill levels and queue contents",
"Tests rotate at one or two fill levels.",
[E+"processor/accounts.rs",E+"state/storage.rs"],[("rotation",E+"processor/accounts.rs reset_active_merkle_tree/is_mt_full")],["tree count","stored root","tree contents"])
p("G05","Commitment metadata is stored in commitment order",
"The metadata of the i-th inserted commitment is stored at position i, in the child account and offset belonging to i, without changing any other position, and the position counter increases by one.",
["inputs","histories"],"all positions and metadata values",
"Tests append a few values.",
[E+"state/metadata.rs"],[("append",E+"state/metadata.rs add_commitment_metadata")],["child account data","counter"])
p("G06","A fee version is set up once and becomes the governing fee",
"A new fee table is stored only for the governor's current fee version and only if valid, an existing fee account is never overwritten, and the governor's and the fee account's tables are then equal.",
["inputs","histories"],"all fee tables, versions and repetitions",
"Tests set one fee table.",
[E+"processor/accounts.rs"],[("fee setup",E+"processor/accounts.rs init_new_fee_version")],["governor and fee accounts"])
p("E01","Every stored type fits its declared size and round-trips",
"Every value of a type stored in accounts or sent in instructions serializes to no more than its declared size (exactly that size for fixed-size types) and deserializing the padded bytes gives back an equal value. Instruction data with missing or trailing bytes is rejected.",
["inputs"],"all values and byte strings of each stored type",
"Tests check sizes of a few values.",
[E+"types.rs",E+"fields.rs",S+"elusiv-types/src/bytes.rs",S+"elusiv-derive/src/borsh_serde_sized.rs"],[("sized serialization",S+"elusiv-derive/src/borsh_serde_sized.rs"),("field encodings",E+"fields.rs")],["bytes and values"])
p("E02","Scalar encodings are exact",
"Conversions between 32-byte values, big integers and limbs preserve the number; the order used for nullifier hashes is the order of those numbers; a value is classified as a field element exactly when it is below the scalar field modulus; and encoding 64-bit amounts into 32 bytes preserves them.",
["inputs"],"all 32-byte values",
"Tests sample values.",
[E+"fields.rs",E+"types.rs",E+"bytes.rs"],[("conversions",E+"fields.rs"),("order",E+"types.rs OrdU256")],["converted values"])
p("E03","Scratch memory keeps its values across transactions",
"Values written to the verification scratch memory or to a cached field or array of an account are read back unchanged, in the same transaction and, after being saved, in every later one; saving the scratch memory changes only the slots that were written, and accesses outside a memory or array abort.",
["histories","inputs"],"all sequences of reads, writes, frames and saves",
"Tests write a few slots.",
[E+"state/proof.rs",E+"types.rs","shared/elusiv-computation/src/lib.rs"],[("lazy scratch memory",E+"state/proof.rs LazyRAM"),("cached fields",E+"types.rs Lazy, LazyArray, JITArray")],["read values","account bytes"])
p("E04","Account fields are stored independently",
"An account is loaded exactly when its data has the account's size, and its fields are consecutive disjoint parts of that data, each of its declared size. Reading a field or an entry of an array field gives the value last written to it, writing one changes no other field or entry, and an index outside the field aborts.",
["inputs","histories"],"all account data, fields, indices, values and sequences of reads and writes, for all account types of both programs",
"Tests write a few fields of one generated account.",
[S+"elusiv-proc-macros/src/elusiv_account.rs",E+"state/",W+"network.rs",W+"warden.rs"],[("generated accessors",S+"elusiv-proc-macros/src/elusiv_account.rs"),("account types",E+"state/")],["account bytes","read values"])
p("W01","Warden registration assigns unique consecutive ids and slots",
"A warden is registered only under its own signature with the next free id; the id counter increases by one, the warden is appended to the network with exactly its features, region and tokens, and no earlier entry changes. Registration beyond the network's maximum size fails.",
["inputs","histories"],"all registration histories",
"There are no executed tests of it.",
[W+"processor/basic_warden.rs",W+"network.rs"],[("registration",W+"processor/basic_warden.rs register_basic_warden"),("network slots",W+"network.rs try_add_member")],["warden accounts","network account"])
p("W02","Warden state changes need the right authority",
"Activity and lookup table of a warden change only with that warden's key, operator confirmation only with the named operator's key, the attester role only by the attestation authority, and metadata only by a warden holding that role; each such instruction changes exactly the addressed warden's record as described by its arguments.",
["inputs","histories"],"all callers and arguments",
"There are no executed tests of it.",
[W+"processor/basic_warden.rs",W+"processor/operator.rs"],[("authority guards",W+"processor/basic_warden.rs")],["warden records"])
p("W03","Activity statistics count each tracked instruction once on its day",
"Tracking succeeds in counting exactly when the preceding instruction of the transaction is a trackable privacy-program instruction made by that warden in the current year; then the total and that day's count of its kind (store or send) increase by one and the last activity time is the current time, and otherwise no count changes. Every day of the year, including the last day of a leap year, can be counted.",
["inputs","histories"],"all preceding instructions, days and counters",
"There are no executed tests of it.",
[W+"processor/basic_warden.rs",W+"warden.rs"],[("tracking",W+"processor/basic_warden.rs track_basic_warden_stats"),("counters",W+"warden.rs WardenStatistics")],["statistics account"])
p("W04","Timestamps map to the right calendar day and year",
"For every second from 2000 to 2099 the computed year and day of the year are those of the Gregorian calendar in UTC, and times outside that range are refused.",
["inputs"],"all timestamps",
"Tests sample dates.",
[W+"processor/utils.rs"],[("conversion",W+"processor/utils.rs unix_timestamp_to_day_and_year")],["day and year"])
p("W05","The genesis network forms only from six complete applications",
"Applications are taken in order into the six genesis slots, each completion is stored in the slot of the applying warden, nobody can confirm before all six are complete, and a confirmation counts once, only with that slot's own exchange key and the message that hashes all quotes in order.",
["inputs","histories"],"all sequences of applications, completions and confirmations",
"There are no executed tests of it.",
[W+"network.rs",W+"processor/apa_warden.rs"],[("application phases",W+"network.rs ApaWardenNetworkAccount")],["network account"])
p("W06","Proposals are numbered and carry a proven proponent role",
"A proposal is stored exactly as given except that its proponent and time are the signer and the current time, under the next proposal number, which then increases by one. A proposal claiming the freezing authority of a token is accepted only if the signer is that token's freezing authority.",
["inputs","histories"],"all proposals, mints and signers",
"There are no executed tests of it.",
[W+"processor/apa.rs"],[("proposal checks",W+"processor/apa.rs propose_apa_proposal")],["proposal account"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema  # python3-vt
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
