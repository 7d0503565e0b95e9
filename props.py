"""what decides each property: Verus units (vx/units), executable contracts (rac crate)"""
RAC_CRATES = ['rac', 'racw']
PROOF_TECH = 'contract-based deductive verification (Verus) of the extracted real functions; executable contracts supply failing inputs'
RAC_TECH = 'executable pre/postcondition contracts on the real functions (bounded)'
def proof(units, note, rac='rac', **k): return dict(units=units, rac=rac, level='proof', technique=PROOF_TECH, note=note, **k)
def bounded(note, rac='rac', **k): return dict(units=[], rac=rac, level='exploration', technique=RAC_TECH, note=note, **k)
B = 'Bounded stand-in, nothing proved: randomized evaluation of executable contracts on the compiled real code. '
PROPS = {
 'Q01': proof(['queue'], 'All nine RingQueue operations, verbatim, for every capacity and both queue_account! instances. Trusted: generated account accessors.'),
 'Q02': proof(['buffer'], 'push, try_insert, find, contains and both buffer_account! instances, verbatim: the buffer is a queue of the most recent values.'),
 'M02': proof(['storage'], 'mt_array_index, account_and_local_index, use_default_value, get_node, set_node, get_root, get_mt_opening: slots are disjoint and inside the child accounts for every node of the tree.'), 'M03': proof(['poseidon'], 'binary_poseidon_hash_partial, its constants and full_poseidon2_hash against the algorithm over numbers modulo the field order; every stored constant (each level of EMPTY_TREE, the zero commitment in both forms, the zero base commitment) is computed from that algorithm inside the verifier. Trusted: addition and multiplication of ark_ff.'), 'M04': proof(['storage', 'tree'], 'is_root_valid, update_mt and reset against the history of roots since the last rotation: with the nodes at hand exactly the current root, otherwise exactly the last 100.'), 'F01': proof(['fee', 'basics'], 'Every fee formula over the integers for every accepted fee table; arithmetic overflow is an obligation.'), 'F02': proof(['fee'], 'is_valid accepts exactly the tables that satisfy the subsidy bounds at every supported batching rate.'), 'F03': proof(['tokens'], 'Token constructors, checked addition and subtraction, limits.'), 'F04': proof(['tokens'], 'Conversions compute exactly the composition of the quoted prices; pyth arithmetic is an uninterpreted function.'), 'G05': proof(['metadata'], 'add_commitment_metadata and its addressing, for every position.'), 'E02': proof(['fields'], 'Every conversion between bytes, limbs, big integers and field representations preserves the number, for all values; ark_ff integer comparison and Montgomery conversion are external.'),
 'D01': proof(['deposit'], 'store_base_commitment and BaseCommitmentHashingAccount::setup down to the CPI primitives (transfer_token, transfer_token_from_pda, transfer_with_token_program, transfer_with_system_program, verify_program_token_account), against a ledger of every movement of funds.'),
 'D02': proof(['deposit', 'basics'], 'store_base_commitment, verify_recent_commitment_index: success implies every admissibility condition.'),
 'D03': proof(['deposit'], 'finalize_base_commitment_hash, enqueue_commitment, close_account, transfer_lamports_from_pda_checked against the ledger and the queue contracts.'),
 'C01': proof(['step'], 'compute_commitment_hash over compute_commitment_hash_partial (proved in unit tree), transfer_lamports_from_pda_checked against the ledger.'),
 'H01': proof(['deposit', 'step', 'tree', 'tables', 'poseidon'], 'compute_base_commitment_hash(_partial), compute_commitment_hash(_partial), both setups and finalizations: progress invariant over every call sequence.'),
 'V01': proof(['send', 'admit', 'compute'], 'Every stage function requires the state invariant vinv, checks the stage it starts from and leaves the next one; init_verification establishes it; compute_verification reaches a verdict only after every round of every phase.'),
 'V02': proof(['admit', 'basics'], 'check_join_split_public_inputs and init_verification: success implies every admissibility condition, against the nullifier, root and limit contracts.'),
 'V03': proof(['admit', 'sched', 'basics'], 'init_verification, VerificationAccount::setup and setup_public_inputs_instructions: the stored record is exactly the request.'),
 'V04': proof(['send'], 'init_verification_transfer_fee down to the CPI primitives, against a ledger of every movement of funds.'),
 'V05': proof(['send'], 'finalize_verification_send, generate_hashed_inputs over an injective encoding (lemma: equal encodings imply equal data); sha256 is an uninterpreted function.'),
 'V06': proof(['send'], "finalize_verification_insert_nullifier over the nullifier accounts' insertion contract (see N01)."),
 'V07': proof(['send'], 'finalize_verification_send, finalize_verification_insert_nullifier, finalize_verification_transfer_lamports/_token and close_verification_pdas on a negative verdict, against the ledger.'),
 'V08': proof(['send'], 'finalize_verification_transfer_lamports, close_verification_pdas, enqueue_commitment against the ledger.'),
 'V09': proof(['send', 'basics'], 'finalize_verification_transfer_token, close_verification_pdas, enqueue_commitment against the ledger.'),
 'V10': proof(['send', 'basics'], 'finalize_verification_send, enforce_finalize_send_instructions, enforce_memo and forwarding checks over the instructions sysvar, for every transaction.'),
 'V11': proof(['admit', 'fields'], 'public_signals, public_signals_skip_mr: position by position, and no two requests that differ share signals.'),
 'V13': proof(['sched', 'compute', 'basics', 'tablesv', 'pairing', 'verdict'], 'prepare_public_inputs_instructions for every list of inputs; prepare_public_inputs(_partial) against the unsplit sum, combined_miller_loop, final_exponentiation, verify_partial, compute_verification: progress invariant; every generated round against the unsplit algorithm (pairing, verdict). Curve and field arithmetic is uninterpreted.'),
 'V12': proof(['pairing', 'verdict', 'compute', 'sched', 'basics'], "Every generated round of the Miller loop, of the line evaluation and of the final exponentiation (the compiler's own expansion), against the unsplit algorithm: scratch memory before each round is what the algorithm has computed so far, no access leaves the memory or the key's coefficients; the digits are proved to be those of 6x + 2 and of x, TWO_INV and COEFF_B to be the constants they stand for. combined_miller_loop, final_exponentiation and verify_partial over these contracts: the verdict, whenever one is given, is alpha_beta == fexp(miller(A, B, C, inputs, key)), for every schedule of transactions. Assumed: the field operations (commutative + and *), and that the algorithm (transcribed from ark_ec) computes the pairing. Real verification runs on Groth16 keys with known trapdoor are the replayed oracle."),
 'G01': proof(['vkey', 'child'], 'All seven verifying key functions, verify_vkey_modification, the key size: authority, frozen flag and byte ranges for every key size, packet and history (invariant: the two data accounts are distinct and in use).'),
 'G02': proof(['child', 'basics'], 'setup_child_account, verify_extern_data_account, try_start_using_account, split_child_account_data(_mut), the three enable instructions, find_child_accounts and execute_on_child_account(_mut) for every parent type and every closure, over a ghost map of the bytes of all accounts.'),
 'G03': proof(['dispatch', 'dispatchw', 'open'], 'Every generated dispatcher of both programs (the compiler\'s own macro expansion) against processors that require what the tables dispatch.tab and dispatchw.tab name: signatures, derived addresses, children; with the PDAAccount functions, and the functions that create an account: only where none is, at the address of its role with the bump stored, of the size and owner required, paid by the payer. Trusted: find/create_program_address as functions of their seeds, the create_account of the system program, the data byte of an account.'), 'G06': proof(['accounts'], 'init_new_fee_version over the validity contract of fee tables (F02) and the ledger of opened accounts.'), 'E01': proof(['codec'], 'The derived serialize and deserialize of every type of the three crates (the compiler\'s own expansion, arms of enums in functions of their own), the manual ones of field elements, points, hash states and ElusivOption, deserialize_enum_full, and every declared SIZE: lengths, round trip whatever bytes follow, and instruction data with a byte more or less rejected. Trusted: the encodings of integers, bool, Vec, Option, arrays, Pubkey and Ipv4Addr (borsh).'), 'E03': proof(['lazy', 'basics'], 'LazyRAM (read, write, check_vector_size, serialize, new, frames with inc_frame and dec_frame), Lazy, LazyArray and JITArray for every element type, every size, frame and sequence of operations. Assumed of an element type: a value takes exactly SIZE bytes and is decoded from them (E01).'),
 'E04': proof(['layout', 'codec'], 'The generated constructor, every getter and setter (scalar and array) and the child accessors of all 29 account types of both programs, verbatim from the compiler\'s own expansion, against the layout that the declaration gives; and (codec) every type that a getter decodes has a fixed size. Trusted: split_at_mut, serialization into a slice, the lengths of arrays.'),
 'N01': proof(['map'], 'try_insert, insert_at, binary_search, get_ptr, update_mid_ptrs, contains, min, max and reset of ElusivMap for every key type and every capacity from 32 to 65536: the linked slots are a strictly increasing chain with all cached pointers in place.'), 'N02': proof(['nullifier'], 'can_insert_nullifier_hash, try_insert_nullifier_hash, move_nullifier_hashes_to_next_account, find_child_account_index, the moved-value accessors and every closure of theirs, over the contract of ElusivMap (N01): the children and the waiting values together are exactly the set of spent hashes, for every history and any number of full children.'),
 'Q03': proof(['batch'], 'next_batch, init_commitment_hash(_inner), reset, over the queue and metadata contracts: all or nothing.'), 'M01': proof(['tree', 'tables'], 'next_hashing_state, save_finished_hash, compute_commitment_hash_partial, update_mt, init_commitment_hash_setup, finalize_commitment_hash, and the theorem that a completed finalization hashes the tree bottom up.'), 'G04': proof(['accounts', 'storage'], 'reset_active_merkle_tree, is_mt_full, is_full, next_batch and reset, for every fill level and queue.'),
 'W01': proof(['warden', 'accounts'], 'register_basic_warden, try_add_member, update_region, the network sizes, with UnverifiedAccountInfo and the PDA predicates: ids are dense and unique, the map, the record and the network agree. Trusted: generated accessors and pda_account! loads (passed as mutable parameters), Clock, the instructions sysvar, derived equality.', rac='racw'), 'W02': proof(['warden'], 'update_basic_warden_state, update_basic_warden_lut, attest_basic_warden_metadata, add/revoke_metadata_attester, register_warden_operator, confirm_basic_warden_operation: each needs the named authority and changes exactly the named part. Trusted: generated accessors and pda_account! loads (passed as mutable parameters), Clock, the instructions sysvar, derived equality.', rac='racw'), 'W03': proof(['warden', 'date'], 'track_basic_warden_stats with inc and the table of trackable instructions: counted exactly once or unchanged. Account positions are recomputed from the attributes of the privacy program (the two send positions are the recipient, a recorded finding). Trusted: generated accessors and pda_account! loads (passed as mutable parameters), Clock, the instructions sysvar, derived equality.', rac='racw'), 'W04': proof(['date'], 'unix_timestamp_to_day_and_year, verbatim, against the Gregorian calendar (year lengths) for every u64 timestamp.', rac='racw'), 'W05': proof(['warden'], 'start, complete and confirm of the genesis application with all slot helpers and the confirmation message: state machine of every slot. Trusted: generated accessors and pda_account! loads (passed as mutable parameters), Clock, the instructions sysvar, derived equality.', rac='racw'), 'W06': proof(['warden'], 'propose_apa_proposal: a proposal opens only with the claimed authority checked, and stores exactly the request. Trusted: generated accessors and pda_account! loads (passed as mutable parameters), Clock, the instructions sysvar, derived equality.', rac='racw'),
}
NOT_YET = 'no contract built yet'
NOT_APPLICABLE = {}
