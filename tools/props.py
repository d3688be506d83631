"""What carries each property: the functions whose contracts state it, and the level claimed for it."""
INSERT = ['MerkleBIT::insert', 'MerkleBIT::insert_one', 'HashTree::insert', 'HashTree::insert_one']
GET = ['MerkleBIT::get', 'MerkleBIT::get_one', 'HashTree::get', 'HashTree::get_one']
REMOVE = ['MerkleBIT::remove', 'HashTree::remove']
PROVE = ['MerkleBIT::generate_inclusion_proof', 'MerkleBIT::verify_inclusion_proof', 'HashTree::generate_inclusion_proof', 'HashTree::verify_inclusion_proof']

ROCKS = ['RocksTree::' + f for f in ('insert', 'insert_one', 'get', 'get_one', 'remove', 'open', 'from_db', 'decompose')] \
    + ['RocksDB::' + f for f in ('new', 'decompose', 'open', 'get_node', 'insert', 'remove', 'batch_write')]

NOCOLL = ['the hash function has no collisions on the strings actually hashed']
TYPES = ['TreeBranch::' + f for f in ('new', 'get_count', 'get_zero', 'get_one', 'get_split_index', 'get_key', 'set_count', 'set_zero', 'set_one', 'set_split_index', 'set_key', 'decompose')] \
    + ['TreeLeaf::' + f for f in ('new', 'get_key', 'get_data', 'set_key', 'set_data', 'decompose')] \
    + ['TreeData::' + f for f in ('new', 'get_value', 'set_value')] \
    + ['TreeNode::' + f for f in ('new', 'get_references', 'get_variant', 'set_references', 'set_branch', 'set_leaf', 'set_data')] \
    + ['HashDB::' + f for f in ('new', 'decompose', 'open', 'get_node', 'insert', 'remove', 'batch_write')]

PROPS = {
    'C01': dict(fns=INSERT + GET, lemmas=['theorem_insert', 'theorem_read_back'], assumptions=NOCOLL),
    'C02': dict(fns=INSERT + GET, lemmas=['theorem_insert'], assumptions=NOCOLL),
    'C03': dict(fns=INSERT + GET, lemmas=['theorem_insert', 'theorem_insert_beside'], assumptions=NOCOLL),
    'C04': dict(fns=REMOVE + INSERT, lemmas=['theorem_remove', 'theorem_remove_beside', 'theorem_insert'], assumptions=NOCOLL),
    'C05': dict(fns=INSERT + REMOVE, lemmas=['theorem_root_is_content', 'theorem_same_map_same_root', 'lemma_canonical'], assumptions=NOCOLL),
    'C06': dict(fns=GET, lemmas=['theorem_lookups_agree'], assumptions=NOCOLL),
    'C07': dict(fns=PROVE, lemmas=['theorem_proofs_verify', 'lemma_complete'], assumptions=NOCOLL),
    'C08': dict(fns=PROVE, lemmas=['theorem_accepted_is_true', 'lemma_sound'], assumptions=NOCOLL),
    'C09': dict(fns=INSERT, lemmas=['theorem_one_is_a_list_of_one', 'theorem_root_is_content', 'theorem_counts_determine_store'], assumptions=NOCOLL),
    'C10': dict(fns=INSERT + GET + REMOVE + PROVE, lemmas=['theorem_no_spurious_errors'], assumptions=NOCOLL),
    'C11': dict(fns=[], theorems=['theorem_decoded_as_encoded', 'Array::serialize', 'ArrayVisitor::visit_seq', 'Array::deserialize', 'Wire::lemma_back', 'Encode::encode', 'Decode::decode'], assumptions=[
        'each scheme (bincode, serde_json, ciborium, serde_yaml, serde_pickle, ron) turns a value of serde\'s data model into bytes and the bytes into the same value; for serde_pickle only numbers below 2^63 (KNOWN_FINDINGS.txt)',
        'the derived implementations are serde\'s for the definition (the data model of the types is generated from it on every run)',
        'Array is seen as the array inside it (its Index, Deref, iter and Default; the search exercises them)']),
    'C12': dict(fns=INSERT, lemmas=['theorem_root_is_content', 'theorem_same_map_same_root', 'lemma_hash_inj'], assumptions=NOCOLL),
    'C13': dict(fns=INSERT + REMOVE, lemmas=['theorem_insert', 'theorem_remove', 'theorem_counts_determine_store', 'theorem_nothing_left'], assumptions=NOCOLL),
    'C14': dict(fns=GET + PROVE + INSERT, assumptions=NOCOLL),
    'C16': dict(fns=INSERT + REMOVE, lemmas=['theorem_branch_metadata'], assumptions=NOCOLL),
    'C17': dict(fns=INSERT + REMOVE, lemmas=['theorem_addresses'], assumptions=NOCOLL),
    'C18': dict(fns=['choose_zero', 'split_pairs', 'calc_min_split_index', 'check_descendants', 'fast_log_2', 'generate_tree_ref_queue', 'generate_leaf_map']),
    'C19': dict(fns=TYPES),
    'C21': dict(fns=['DefaultHasher::new', 'DefaultHasher::update', 'DefaultHasher::finalize'], lemmas=['lemma_digest', 'theorem_hash_of_the_concatenation']),
    'C15': dict(fns=ROCKS, lemmas=['theorem_restart', 'theorem_insert', 'theorem_remove'], assumptions=NOCOLL + [
        'the rocksdb crate: get, put, delete and write act on one map on disk, each as a whole, and opening finds what was there',
        'a node encoded with serde is decoded as the same node (C11)',
        'an insertion follows no failed operation whose queued writes are still pending (such histories are searched, not proved)',
        'a crash is the end of the process between two database calls, or within one that has not taken effect']),
    'C20': dict(fns=INSERT, lemmas=['theorem_rejected', 'theorem_insert'], assumptions=NOCOLL),
}

TRUST = 'Trusts Verus, Z3, the extraction (vx) and the specifications of std collections; see DESIGN.md for the assumptions.'
FULL = 'Every function the property depends on is verified against its contract for all inputs, without a bound. ' + TRUST
for _p, _i in PROPS.items():
    _i['level'] = 'proof'
    _i['note'] = FULL
    _i['theorems'] = _i.get('theorems') or _i['fns'] + _i.get('lemmas', [])

NOT_APPLICABLE = {}
