#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, st, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))
T='trie/trie.go'; NS='trie/nodestore.go'; ND='trie/nodedata.go'; N='trie/node.go'; PR='trie/proof.go'; EN='trie/encode.go'
U='trie/util.go'; KV='trie/kv.go'; B='models/trie_blake2b/model.go'; BP='models/trie_blake2b/proof.go'
BV='models/trie_blake2b/trie_blake2b_verify/verify.go'; H='hive_adaptor/hiveadaptor.go'
KM='models/trie_kzg_bn256/model.go'; KP='models/trie_kzg_bn256/proof.go'; KT='models/trie_kzg_bn256/trusted.go'

p('C01','The root commitment is a function of the contents alone',
  'After a commit, the root commitment is determined only by the commitment scheme, its parameters and the current set of key/value pairs (an empty value means that the key is absent; no pairs, no root). It never depends on the order of updates and deletions, on overwritten, re-inserted or never-existing keys, on batching, intermediate commits, persists or reloads, nor on which entry point (single or mass update, string or byte keys, key-commitment insertion, update with an empty value or delete) made the change. Every operation on legal input terminates without panic.',
  ['histories','inputs','configurations'],'all sequences of updates, deletes, commits, persists, cache clears, reopenings and clones over variable-length keys (empty key, keys that are prefixes of others, arbitrary lengths), all arities, hash sizes and models',
  'The repository tests compare a few deterministic and random orders and check against a rebuild at the end; reorganisation cases (split, extend, merge, re-creation of a node deleted in the same batch) interact with what is cached, marked modified, marked deleted or only persisted, and the space of histories cannot be sampled by hand.',
  [T,NS,N,B,KM],[('path search, extend, split',T+': Update, splitNode, newTerminalNode'),('removal and merge',T+': Delete, checkReorg, mergeNode, hasCommitment'),('lazy recalculation',T+': commitNode, markModifiedCommitmentsBackToRoot'),('cache/deleted marks',NS+': getNode, removeKey, unDelete, insertNewNode, replaceNode')],
  ['trie.RootCommitment after Trie.Commit','Trie.GetNode'],
  [('nodeCache/deleted','buffered view over the persisted nodes',NS),('modifiedChildren/pathChanged/newTerminal','pending recalculation marks',N)])
p('C02','Different contents have different root commitments',
  'Two sets of key/value pairs that differ in any key or any value have different root commitments under the same commitment scheme, and two trie nodes that differ in their terminal, in any child commitment, in the position of a child or in the path fragment have different commitments. This assumes a collision-free hash and disregards values and path fragments that differ only in trailing zero bytes or one of which is the hash of the other (see the known findings).',
  ['inputs','configurations'],'all pairs of contents and all pairs of node data, every child index 0..arity, all lengths of values and path fragments around the hash size, both hash sizes, all arities, KZG as well',
  'Tests only compare a handful of roots; a commitment that ignores one child position, the terminal of inner nodes or part of a long value passes every equality test in the suite.',
  [B,KM,T],[('node vector and its hash',B+': makeHashVector, HashTheVector, commitToData'),('KZG vector',KM+': makeVector, calcNodeCommitment'),('recalculation after change',T+': commitNode')],
  ['CommitmentModel.CalcNodeCommitment','trie.RootCommitment'])
p('C03','The persisted trie is exactly the committed trie',
  'After commit and persist, a new trie or read-only reader opened on the same store has the same root commitment, the same nodes and gives the same proofs as the trie which was persisted, and continues to update to the same roots. The store then holds exactly one record for each node of the trie and no stale record of removed, moved or merged nodes, whatever sequence of batches produced it, and persisting tells the number of records it wrote or removed. Persisting the same committed changes again, also to another copy of the store, writes all of them again.',
  ['histories','inputs','configurations'],'all histories of update batches, commits and persists with or without clearing of caches in between, all arities, hash sizes, thresholds, key-commitment settings and models',
  'Tests compare the root of a reopened trie in a few runs; leaking or losing individual node records after particular reorganisations, or node records which deserialise differently, show up only later and only for specific histories.',
  [NS,N,ND,T],[('writing the cache and deletions',NS+': persistMutations'),('node serialization',N+': bufferedNode.Bytes; '+ND+': Write, Read'),('reading',NS+': nodeStore.getNode')],
  ['contents of the store given to Trie.PersistMutations','trie.NewTrieReader on that store'])
p('C04','Nothing is persisted early and a cache clear returns to the persisted state',
  'Updates, deletions, commits and reads never change the store; only persisting does. Clearing the cache discards all buffered changes, committed or not, so that the trie again has exactly the state (root, nodes, proofs and later behaviour) of the store. Persisting again without new updates changes nothing, and persisting after several commits stores the last one.',
  ['histories'],'all interleavings of updates, deletions, reads, commits, persists and cache clears',
  'No test clears a dirty cache or inspects the store between operations; the repository always commits, persists and clears in this order.',
  [NS,T],[('buffering',NS+': nodeStoreBuffered'),('clear',NS+': clearCache')],
  ['store contents after each call','Trie.GetNode / RootCommitment after ClearCache'])
p('C05','A clone and its original are independent',
  'A clone has the same state as the original at the moment of cloning, including buffered changes that are not yet committed or persisted. After that, no operation on either one (update, delete, commit, cache clear, reads) has any effect on what the other one commits to, proves or persists.',
  ['histories','schedules'],'all histories before the clone (dirty, committed, persisted caches), then all interleavings of operations on the two tries, clones of clones',
  'The only test clones once in a fixed state; sharing of a nested map or slice becomes visible only when a specific node is modified on one side and recalculated on the other.',
  [T,NS,N,ND],[('deep copy',T+': Clone; '+NS+': clone; '+N+': bufferedNode.Clone; '+ND+': NodeData.Clone')],
  ['RootCommitment, GetNode and persisted nodes of both tries'])
p('C06','Proofs of presence and absence are complete',
  'For every committed state and every key, present or absent, the proof produced from a trie or from a read-only reader validates against the root commitment, is about exactly that key, and states presence with the terminal commitment of the current value when the key is present and absence otherwise. Validation with a value accepts the current value of a present key, and never accepts another value nor an absent key. The commitment to the terminal node derived from such a proof is the commitment of the node at which the search for the key ends. The search itself, from a trie also with changes not committed yet, passes exactly the nodes of the radix tree of the current contents and tells how it ends.',
  ['inputs','histories','configurations'],'all contents and keys (empty key, keys that diverge in the middle of a path fragment, extend a leaf, end at a branching point), all arities and hash sizes, from buffered tries and readers, empty trie included',
  'Tests prove random keys of random tries; absence has several structurally different cases, which depend on where the key leaves the trie, and lengths around the hash size matter.',
  [BP,BV,PR],[('search path',PR+': GetProofGeneric'),('proof construction',BP+': CommitmentModel.Proof'),('verification',BV+': Validate, ValidateWithValue, MustKeyWithTerminal, CommitmentToTheTerminalNode')],
  ['Validate / ValidateWithValue / MustKeyWithTerminal / IsProofOfAbsence of honest proofs'])
p('C07','A proof that validates tells the truth',
  'Whatever proof object is presented, if it validates against the root commitment of a state, then what it claims holds in that state: the key it is about is present with the claimed terminal commitment, or is absent. A proof taken for one key can not be altered to claim anything about another key, and proofs can not be cut, extended, spliced or re-labelled into false claims; malformed proofs are rejected with an error, not with a panic (up to the two weaknesses of short data listed as known findings).',
  ['inputs'],'all manipulations of the fields of honest proofs (key, child indices, path fragments, terminals, child commitments, path elements removed, repeated, swapped or taken from proofs of other keys and other states, arity and hash size), for presence and absence',
  'Tests tamper with single bytes of commitments only; forgeries that keep all hashes intact and change only what the proof is about are not tried at all (the original code accepted them).',
  [BV,BP],[('binding of path to key and root',BV+': verify, Validate'),('recomputation of hashes',BV+': makeHashVector, hashIt'),('claim extraction',BV+': MustKeyWithTerminal, IsProofOfAbsence, ValidateWithValue')],
  ['Validate on manipulated proofs of trie_blake2b'])
p('C08','Proof serialization is faithful and decoding is strict',
  'Serializing any proof and reading it back gives a proof equal to the original, with the same verdicts against any root. Reading any truncated proof or a proof followed by extra bytes fails with an error, reading arbitrary bytes never panics, and whatever is read can be serialized again to an equal proof; the result does not depend on how the reader splits the data. Writing to a medium that fails, a proof whose path symbols do not exist in its arity, or one with more elements than the format can count, reports an error.',
  ['inputs'],'all honest proofs (all arities, hash sizes, child positions 0..arity, lengths of path fragments and terminals), all truncations and extensions, mutated and arbitrary byte strings, readers that return data in pieces',
  'The round trip is tested only for keys and children that ordinary text produces; the original code corrupted every proof with children at positions 0 and 1, and treated short reads as success.',
  [BP,U,EN],[('wire format',BP+': Proof.Write/Read, ProofElement.Write/Read, ProofFromBytes'),('primitives',U+': ReadBytes8/16, ReadUint16')],
  ['Proof.Bytes, ProofFromBytes, Proof.Read'])
p('C09','Storage optimizations do not change any result',
  'The value-size threshold, with which terminals of small values are not stored with the node but taken from the value store, changes neither root commitments nor proofs nor what a reloaded trie contains. Key commitments (pairs whose value equals the key, stored without the terminal) survive persist and reload with the same commitment, keep commitments of all other pairs unchanged, and for 256-ary tries do not change any root commitment. Nodes at the root, inner nodes with children and keys of all lengths are treated alike; only the empty key can not be a key commitment, which is refused and leaves the trie as it is.',
  ['configurations','inputs','histories'],'all thresholds from 0 to above any value length, key-commitment option on and off, all arities and hash sizes, values and keys of all lengths around the threshold and the hash size, histories in which a value moves across the threshold or becomes / stops being equal to its key',
  'Tests use a few thresholds with random values and check only that the trie can be reconciled; the combination of both options at the root node was wrong in the original code.',
  [N,ND,T,B],[('choice of the source of the terminal',N+': bufferedNode.Bytes; '+ND+': Write, Read'),('costly commitments',B+': ForceStoreTerminalWithNode, commitToData'),('key commitments',T+': Update, InsertKeyCommitment')],
  ['roots, nodes and proofs of tries with and without the options'])
p('C10','Reconciliation reports exactly the inconsistencies',
  'Checking a key/value store against a trie returns exactly those keys of the store for which the trie does not hold a terminal commitment to the stored value, each of them once, and nothing else. It returns nothing if and only if all pairs of the store are in the trie, including for an empty trie, for keys which are branching points, and for key commitments.',
  ['inputs','histories'],'all pairs of trie contents and store contents (equal, subset, superset, altered values, keys that are prefixes or extensions of trie keys, absent keys which are branching nodes), all arities and options',
  'Tests reconcile a store only against the trie built from that very store and expect an empty answer (and one case of a wrong value).',
  [T,PR],[('comparison',T+': Reconcile, UpdateAll')],['Trie.Reconcile'])
p('C11','Batched updates reach the database atomically, whatever fails',
  'With the batched updater, key/value pairs and the trie over them change in the database together and only when a commit of the batch takes effect: at any moment, and so after a crash at any point, the values and the trie in the database are those of one and the same committed batch boundary, and the trie commits exactly to the values. If the batch fails to be applied or flushed, the commit reports an error, no update is lost, and repeating the commit, possibly after more updates, brings the database to the intended state.',
  ['fault_sequences','crash_points','histories'],'all histories of updates and commits with failures of batch creation, of batch application (before or after taking effect) and of flush, and a crash (reopening from the database) after any step',
  'Existing tests run the batched updater on an in-memory store that never fails and only look at the final state.',
  [H,NS],[('batch over both partitions',H+': HiveBatchedUpdater.Update/Commit'),('cache kept until the flush succeeded',H+': Commit')],
  ['contents of the database partitions after every call','HiveBatchedUpdater.Commit result'],[('batch','mutations collected since the last successful commit',H)])
p('C12','Key/value stores and partitions behave as independent maps',
  'A key/value store behaves as a map from keys to non-empty values: reading gives what was last written, writing an empty value removes the key, membership and iteration agree with reading, iteration visits every pair once with its own key and stops when told to. Partitions of one database with different, non-overlapping prefixes never see or change each other, and a failure of the underlying database is never reported as an absent key.',
  ['histories','configurations','fault_sequences'],'all sequences of writes, deletions, reads and iterations over several partitions and prefixes (empty prefix, prefixes of several bytes, keys that begin like a prefix, empty keys), with storage errors injected',
  'There are no tests of the adaptor on its own, nor of several partitions with adversarial keys.',
  [H,KV],[('prefixing',H+': makeKey, Get, Has, Set, Iterate'),('in-memory store',KV+': inMemoryKVStore')],
  ['HiveKVStoreAdaptor and in-memory store results'])
p('C13','Key encoding is injective and decoding is its strict inverse',
  'Unpacking a key into path symbols, encoding a path of any length (also one that does not fill a whole byte) and decoding it back gives the same path for every arity; different paths have different encodings, and packing a path obtained from a key gives the key back. Decoding accepts only what encoding produces (path symbols in range, correct padding) and reports an error for everything else without panic; encoding reports an error for symbols out of range.',
  ['inputs'],'all paths of all lengths for arities 256, 16 and 2 and all byte strings given to the decoder',
  'Tests sample random keys and a few malformed inputs; malformed short inputs panicked and out-of-range symbols in every second position were accepted by the original code.',
  [EN],[('codecs',EN+': UnpackBytes, PackUnpackedBytes, EncodeUnpackedBytes, DecodeToUnpackedBytes')],
  ['results of these functions'])
p('C14','Node serialization is faithful',
  'Writing any node (terminal present or not, stored, taken from the key or from the value; any set of children among all positions; path fragment of any length) in the documented flag-based format and reading it back with the same key gives an equal node with the same commitment. Reading truncated data or data followed by extra bytes fails with an error, inconsistent flags are rejected, and arbitrary bytes never cause a panic. Commitments are read from exactly their bytes, and compare equal exactly when their bytes are equal. Writing to a medium that fails, a node that commits to nothing, or one whose path symbols do not exist in the arity, reports an error, and a damaged record in the store of a trie is never taken for another node nor for an absent one.',
  ['inputs','configurations'],'all node data: every child position, numbers of children from 0 to all, path fragments that do not fill whole bytes, all terminal lengths and kinds, all arities, hash sizes, both models; all truncations, extensions and mutated bytes',
  'One test writes and reads a few nodes; positions of children at the ends of the flag array, long fragments and short reads are not covered.',
  [ND,B,KM,EN],[('flags and layout',ND+': Write, Read, cflags'),('commitment serialization',B+': terminalCommitment/vectorCommitment Read/Write, EqualCommitments; VectorCommitmentFromBytes'),('records of a store',NS+': getNode')],
  ['NodeData.Write/Read, NodeDataFromBytes'])
p('C15','Key/value streams and dumps lose nothing and report truncation',
  'Key/value pairs written to a binary stream, a stream file or a dump file and read back are the same pairs in the same order for streams, as the same set for dumps, with counts and sizes reported correctly. If the data ends in the middle of a pair, reading reports an error and delivers exactly the complete pairs before that point, no invented or partial pair; results do not depend on how the underlying reader splits the data, and stopping the iteration early stops it. Writing to a file on a medium without enough room reports an error. A random stream is determined by its parameters and delivers as many pairs as asked for within the length limits.',
  ['inputs','fault_sequences','crash_points'],'all sequences of pairs (empty keys and values, long keys up to the length limit, long values), every truncation point, readers that deliver data in arbitrary pieces or fail',
  'Tests write and read back complete files only; the original code returned zero-padded data for truncated files and panicked while restoring a dump.',
  [KV,U],[('stream format',KV+': BinaryStreamWriter, BinaryStreamIterator, file variants'),('dump',U+': DumpToFile, UnDumpFromFile, readKV, writeKV'),('primitives',U+': ReadBytes8/16/32, WriteBytes8/16/32')],
  ['pairs delivered, errors and counters returned'])
p('C16','KZG tries commit to exactly their contents',
  'With the KZG commitment model, too, the root commitment after a commit depends only on the current key/value pairs and not on the history of updates, deletions, commits, persists and reloads, and differs for different contents. The incremental recalculation of node commitments always agrees with the calculation from scratch, and each child commitment stored in a node is the commitment of that child.',
  ['histories','inputs'],'all histories over tries with the KZG model, including splits, merges and re-insertions between commits, persisted and reloaded',
  'KZG is slow, so that its tests use small fixed scenarios; they never delete and reorganise between commits.',
  [KM,T],[('recalculation',KM+': UpdateNodeCommitment, calcNodeCommitment, makeVector'),('calling protocol',T+': commitNode')],
  ['trie.RootCommitment and nodes with trie_kzg_bn256.Model'])
p('C17','KZG proofs of inclusion exist exactly for present keys and are sound',
  'A KZG proof of inclusion is given exactly for the keys that are present; it validates against the root commitment, with the current value and with no other value, and equals itself after serialization and reading back. A proof with altered root, value, terminal, vector index, point or length does not validate and never causes a panic, and truncated or extended serialized proofs are rejected. Writing a proof to a medium that fails reports an error.',
  ['inputs','histories'],'all contents and keys (absent keys that are branching points, prefixes or extensions of present keys), all single alterations of proofs and of their bytes',
  'Tests validate a few honest proofs with text keys; absent keys which are branching points and altered vector indices panicked in the original code.',
  [KP,PR],[('construction',KP+': CommitmentModel.ProofOfInclusion'),('validation',KP+': ProofOfInclusion.Validate'),('wire format',KP+': Write, Read')],
  ['ProofOfInclusion, Validate, Bytes, ProofOfInclusionFromBytes'])
p('C18','Buffers of the caller are neither retained nor modified',
  'Whatever the caller does with the byte slices passed to the trie, to the proof functions or to the batched updater after the call returned (keys, values, lookup keys) has no effect on the state, on proofs already obtained or on what is later persisted, and no call modifies these slices. Likewise modifying a proof obtained from a trie changes neither the trie nor other proofs.',
  ['histories','inputs'],'all operations taking keys or values, followed by arbitrary modification of the passed buffers at any later moment before or after commit and persist, all arities and models',
  'Every test passes fresh slices or string conversions and never reuses buffers; retained references corrupt the trie only when the caller reuses memory.',
  [T,NS,EN,BP,KP,H],[('copies made at the API boundary',EN+': UnpackBytes; '+NS+': getNode; '+H+': Update; '+BP+': Proof')],
  ['roots, nodes, proofs and stored data after buffers were overwritten'])
p('C19','A committed trie is the canonical Merkle radix tree of its contents',
  'After a commit, the nodes reachable from the root are exactly those of the radix tree of the current keys: the terminal of each key sits at the end of its own path, every node other than the root holds a terminal or at least two children, and no node is unreachable by the keys or superfluous. A search for any path, also between commits, passes exactly the nodes of that tree at that moment and tells how it ends. Each terminal commits to the value of its key, each child commitment equals the commitment calculated from the data of that child, and the root commitment is that of the root node.',
  ['histories','inputs','configurations'],'all histories of updates and deletions with commits at arbitrary points, all arities and hash sizes, all key shapes',
  'Tests look at roots only; a structurally wrong trie can have consistent roots as long as both compared tries are wrong in the same way.',
  [T,NS,N,B],[('reorganisation',T+': splitNode, mergeNode, checkReorg'),('propagation of changes',T+': commitNode, markModifiedCommitmentsBackToRoot')],
  ['Trie.GetNode over all nodes, CommitmentModel.CalcNodeCommitment'])
p('C20','Reading never influences the state',
  'Fetching nodes, searching for present or absent keys, producing proofs, calculating the root commitment, reconciling, dumping or cloning, at any moment and any number of times, before or after uncommitted changes, never changes any later root commitment, proof, node or persisted content. A trie opened with a cold cache, in which nothing was read before, behaves in the same way as one with everything cached. Several readers of one store give the same results when they are used at the same time.',
  ['histories','schedules'],'all insertions of reading operations of all kinds at all positions of all histories, also through other tries and readers on the same store',
  'Tests read only after commits; since reading fills the cache that updates work on, its effect depends on what is cached when.',
  [NS,T,PR],[('cache fill on read',NS+': getNode'),('persist of read nodes',NS+': persistMutations')],
  ['roots, nodes and store of tries with and without reads in between'])
p('C21','A KZG trusted setup survives saving and restoring',
  'A trusted setup generated from a secret, in either of the two supported domains, and restored from its serialized form (bytes or file) is equal to the generated one and yields the same commitments and proofs, which verify under either of the two and are rejected for a wrong value or position. Truncated or extended serialized setups are rejected with an error.',
  ['inputs','configurations'],'both kinds of domain, several dimensions, vectors with absent, zero and non-zero elements, every position, every truncation',
  'Tests restore only a setup with the root-of-unity domain, of one dimension; the natural domain could not be restored by the original code.',
  [KT,'models/trie_kzg_bn256/fun.go'],[('serialization',KT+': TrustedSetup.Bytes, TrustedSetupFromBytes, read, write'),('precalculation',KT+': precalculate')],
  ['TrustedSetupFromBytes/FromFile, and in-package commit/prove/verify through a test overlay'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        if not x['anchors']['state']: del x['anchors']['state']
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
