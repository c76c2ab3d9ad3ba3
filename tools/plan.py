"""What each check runs: models, generators of behaviours, suites of recorded executions."""

HASH = "hash functions are collision free (commitments are uninterpreted in the specification)"

ROOTS = ["root-function", "panic"]
STORE = ["store-records", "store-root", "nodes", "merkle", "root-function", "panic"]
NODES = ["nodes", "merkle", "panic"]


def trie(cfg, chk, replay="trie", **kw):
    """behaviours of the implementation shaped machine"""
    return dict({"module": "TrieImpl", "cfg": cfg, "cfg_thorough": cfg + "Deep", "replay": replay, "workers": 4, "chk": chk}, **kw)


def sim(cfg, chk, replay="trie", **kw):
    """random walks of it"""
    return dict({"module": "TrieImpl", "cfg": cfg, "replay": replay, "chk": chk, "simulate": (60, 1200), "depth": 45}, **kw)


def full(cfg):
    """its complete state space for a set of keys"""
    return {"module": "TrieImpl", "cfg": cfg, "workers": 4, "thorough": True}


def proofs(cfg, chk):
    """proof objects composed by the adversary of the proof system"""
    return {"module": "ProofSys", "cfg": cfg, "cfg_thorough": cfg + "Deep", "replay": "proofs", "workers": 4, "chk": chk}


PLAN = {
    "C01": {"suites": ["C01", "C01huge"], "gens": [trie("TrieA", ROOTS), sim("TrieSimA", ROOTS)], "models": [full("TrieFull")], "assumptions": [HASH]},
    "C02": {"suites": ["C02"], "gens": [{"module": "MCRadix", "cfg": "MCRadix", "cfg_thorough": "MCRadixDeep", "replay": "roots", "workers": 4},
                                       {"module": "MCData", "cfg": "MCData", "cfg_thorough": "MCDataDeep", "replay": "data", "workers": 4}], "assumptions": [HASH]},
    "C03": {"suites": ["C03", "C03huge"], "gens": [trie("TrieD", STORE), sim("TrieSimB", STORE)], "models": [full("TrieFull2")], "assumptions": [HASH]},
    "C04": {"suites": ["C04", "C04huge"], "gens": [trie("TrieC", STORE + ["store-untouched"]), sim("TrieSimC", STORE + ["store-untouched"])], "models": [full("TrieFullVals")], "assumptions": [HASH]},
    "C05": {"suites": ["C05", "C05huge", "C05race"], "gens": [trie("TrieCl", STORE + ["store-untouched"]), sim("TrieSimA", STORE + ["store-untouched"])], "models": [full("TrieFullClone")], "race": ["C05race"], "assumptions": [HASH]},
    "C06": {"suites": ["C06", "C06huge"], "gens": [proofs("Proofs256", ["proof-valid", "proof-claim", "panic"]), trie("TrieB", ["proof-valid", "proof-claim", "proof-value", "panic"], "trie-proofs"), sim("TrieSimC", ["proof-valid", "proof-claim", "proof-value", "panic"], "trie-proofs")], "assumptions": [HASH]},
    "C07": {"suites": ["C07"], "gens": [proofs("Proofs256", ["sound", "panic"]), proofs("Proofs16", ["sound", "panic"])],
            "models": [dict(full("ProofsFull256"), module="ProofSys"), dict(full("ProofsFull16"), module="ProofSys")], "assumptions": [HASH]},
    "C08": {"suites": ["C08"], "gens": [{"module": "MCProofWire", "cfg": "MCProofWire", "cfg_thorough": "MCProofWireDeep", "replay": "proofwire", "workers": 4}],
            "assumptions": []},
    "C09": {"suites": ["C09"], "gens": [trie("TrieA", STORE, "trie-opt"), sim("TrieSimB", STORE, "trie-opt")], "assumptions": [HASH]},
    "C10": {"suites": ["C10", "C10huge"], "gens": [trie("TrieA", ["reconcile", "panic"], "trie-recon"), sim("TrieSimB", ["reconcile", "panic"], "trie-recon", simulate=(15, 400))], "assumptions": [HASH]},
    "C11": {"suites": ["C11", "C11huge"],
            "gens": [{"module": "Updater", "cfg": "Updater16", "replay": "updater", "workers": 4},
                     {"module": "Updater", "cfg": "Updater2Deep", "replay": "updater", "workers": 4, "thorough": True},
                     {"module": "Updater", "cfg": "Updater256Deep", "replay": "updater", "workers": 4, "thorough": True}],
            "assumptions": [HASH, "the database applies a batch atomically, or not at all, and keeps what was flushed"]},
    "C12": {"suites": ["C12"], "gens": [{"module": "MCKV", "cfg": "MCKV", "cfg_thorough": "MCKVDeep", "replay": "kv", "workers": 4}], "assumptions": []},
    "C13": {"suites": ["C13"], "gens": [{"module": "MCKeys", "cfg": "MCKeys", "cfg_thorough": "MCKeysDeep", "replay": "keys", "workers": 4}], "assumptions": []},
    "C14": {"suites": ["C14"], "gens": [{"module": "MCNodeWire", "cfg": "MCNodeWire", "cfg_thorough": "MCNodeWireDeep", "replay": "node", "workers": 4}], "assumptions": []},
    "C15": {"suites": ["C15"], "gens": [{"module": "MCStream", "cfg": "MCStream", "cfg_thorough": "MCStreamDeep", "replay": "stream", "workers": 4}], "assumptions": []},
    "C16": {"suites": ["C16"], "gens": [trie("TrieK", ["root-function", "nodes", "merkle", "store-root", "panic"], "trie-kzg")], "assumptions": [HASH]},
    "C17": {"suites": ["C17"], "gens": [trie("TrieK", ["kzg-inclusion", "kzg-valid", "kzg-value", "panic"], "trie-kzg")], "assumptions": [HASH]},
    "C18": {"suites": ["C18"], "assumptions": [HASH]},
    "C19": {"suites": ["C19", "C19huge"], "models": [{"module": "MCRadix", "cfg": "MCRadixQuiet", "workers": 4}], "gens": [trie("TrieE", NODES), sim("TrieSimB", NODES)], "assumptions": [HASH]},
    "C20": {"suites": ["C20", "C20huge", "C20race"], "race": ["C20race"], "gens": [trie("TrieR", STORE + ["store-untouched"]), sim("TrieSimA", STORE + ["store-untouched"])], "assumptions": [HASH]},
    "C21": {"suites": ["overlay"], "overlay": ("models/trie_kzg_bn256", "kzg_verif_test.go.txt"),
            "gens": [{"module": "KZG", "cfg": "KZGNat", "cfg_thorough": "KZGNatDeep", "replay": "overlay", "workers": 4},
                     {"module": "KZG", "cfg": "KZGPow", "cfg_thorough": "KZGPowDeep", "replay": "overlay", "workers": 4}],
            "assumptions": ["nobody knows the secret of the setup, and the pairing is not degenerate"]},
}
