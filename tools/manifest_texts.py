COMMON = "Decides the property's structural conditions on every path of the resolved program for all inputs; trusts the models of cryptographic primitives, standard library and storage engine (sa/models.go) and the type-checked SSA form; does not execute the code."
_t = "path-sensitive dataflow over go/ssa (value numbering, loop summaries)"
class D(dict):
    def __missing__(self, k): return self.d
TECH = D(); TECH.d = _t
NOTE = D(); NOTE.d = "Necessary conditions of the property as facts on all paths of the entry points."
TECH.update({
 "C01": "path-sensitive dataflow over go/ssa with loop summaries: required facts at every accepting exit; writers of the pinned root",
 "C02": "path-sensitive dataflow over go/ssa: facts and loop records at every write to a history; effect-free refusals",
 "C03": "path-sensitive dataflow over go/ssa: required verification facts at every accepting exit",
 "C04": "path-sensitive dataflow over go/ssa: finite table of (request, code, proof type) excluded or allowed at every accepting exit",
 "C05": "path-sensitive dataflow plus enumeration of all writers of the saved promises",
 "C06": "effect analysis of failing exits plus enumeration of all writers of the pinned state",
 "C07": "path-sensitive dataflow: every exit with a verification error carries the negated check",
 "C08": "effect analysis: insertion events and their guards on all paths; writers of the tree and the pending set",
 "C09": "effect analysis: order and values of promise creation, recording and removal",
 "C10": "path-sensitive dataflow: answer as a function of (in snapshot, pending) at every exit",
 "C11": "loop summaries: range, order and provenance of every element of an answer",
 "C12": "effect order and value provenance of root construction",
 "C13": "effect analysis of the snapshot table with loop summaries for eviction",
 "C14": "escape/sharing and write-effect analysis of published trees",
 "C15": "loop-summarised shape analysis of insertion and traversal",
 "C16": "comparison of the hash inputs of tree builder and verifier as symbolic sequences; cached-hash invalidation sites",
 "C17": "type reachability of encoded data and interprocedural taint of user names and values",
 "C18": "comparison of serialised sequences between signer and verifier; field coverage",
 "C19": "comparison of hash transcripts of prover and verifier; length checks",
 "C20": "interprocedural taint from private keys to every sink outside the program; file permissions; type reachability",
 "C21": "path-sensitive dataflow from request decoding to handler dispatch; permission facts at every handler call",
 "C22": "lock-set analysis of all goroutine roots; effect analysis of shared readers; access sites of guarded data",
 "C23": "typestate of connections along all paths of the serving goroutines; wait-group and lock-set analysis",
 "C24": "enumeration of all listen and dial sites with dataflow of their TLS configuration",
 "C25": "event-order analysis of the epoch timer's goroutine",
 "C26": "effect analysis of the reload path",
 "C27": "path-sensitive dataflow of response decoding, per code and request type",
 "C28": "decision table over all status codes, walked abstractly",
 "C29": "path-sensitive dataflow of the bot's handler: facts at every forwarded request and answer",
 "C30": "effect analysis and key-encoding comparison of save and load",
 "C31": "path-sensitive dataflow of the loaders: completeness facts of every accepted configuration; obligations of its users",
 "C32": "event-order analysis of file creation and error reporting in the init commands",
 "C33": "enumeration of random sources; facts on length and error at every accepting exit of the generators",
 "C34": "path-sensitive dataflow from the result of the checks to the texts shown by the client's commands",
 "C35": "run-time failure obligations (nil, index, assertion, length, panic) decided on all paths of the verifiers",
 "C36": "run-time failure obligations and allocation sizes decided on all paths of the request handlers",
 "C37": "abstract interpretation of the loop summaries in a symbolic-bit and congruence domain",
 "C38": "effect analysis of field reads against a type-level computation of the encoded fields; path exploration of the encoders",
 "C39": "termination analysis: loop summaries with a bound per counter, taint of claimed quantities, cycle check between alternatives; call-graph descent check",
 "C40": "path exploration of every function that calls something fallible, callees unknown: status of each obtained error (nil, provided for, passed on, reported) at every exit and at the end of every loop round; use check of every error result",
})
NOTE.update({
 "C01": "All accepting exits, ranges of any length by loop summary. The first root of a longer range given to CheckEquivocation is only compared with the observed one.",
 "C02": "Initialisation trusts the snapshots the caller gives it, except for epoch 0 and identity.",
 "C05": "Not decided: reporting a proof of absence in a later epoch while a promise is outstanding (the client has no such check).",
 "C13": "A directory with room for one snapshot never evicts; not covered.",
 "C15": "Rules follow the descent by levels the code uses; a different algorithm (recursion, other traversal order) is reported and needs the rule re-read.",
 "C16": "Rules follow the descent by levels the code uses; a different algorithm is reported and needs the rule re-read. No domain separator of interior hashes is demanded.",
 "C19": "Transcripts, lengths and order only; group arithmetic is N01.",
 "C20": "Explicit flows only; branching on key bytes and the TLS keys of the operator are not covered.",
 "C22": "Lock discipline, not linearizability (N03).",
 "C34": "Texts are classified by their wording; assumes C07 for which errors can reach the command.",
 "C35": "Stack and memory exhaustion and panics inside the standard library beyond its documented preconditions are not covered.",
 "C36": "Handlers are decided for every request value, including kinds the decoder would not produce; the tree's shape and the presence of loaded snapshots are C15 and C13.",
 "C37": "Every position, as 8q+r with symbolic q; positions are taken to fit 32 bits. Conversions written in a shape the domain does not follow are reported as undecided by this check only.",
 "C38": "encoding/json and TOML are taken to follow their documented rules for exported, tagged and embedded fields; a type with its own encoding and decoding methods is assumed to have inverse ones.",
 "C39": "Bounds are on the number of rounds, not on time. Following the links of the tree is taken to end (a tree has no cycles, C14); calls into libraries are taken to return once the connection deadline has passed.",
 "C40": "Errors of Close, deadlines, os.Remove, os.Stat, hashes, in-memory buffers, encoding/binary.Write (used for buffers) and terminal output are not failures of a step. An error compared equal to a particular value, or asked about by a predicate or type assertion, counts as provided for; whether it should be is decided by the check of the function in question.",
})
NA = {
 "N01": "the correctness of the field, curve and Elligator arithmetic is a numerical statement about multi-limb integer computations; no dataflow, typestate or shape rule in reach bounds those values, and checking sampled values would be a test",
 "N02": "computational hardness assumptions about the primitives are not facts about this source code",
 "N03": "linearizability quantifies over histories of interleaved executions; the static part (lock discipline) is claimed as C22, the history statement itself is not decidable by a rule over the source",
 "N04": "wall-clock bounds depend on machine, load and directory size; nothing in the source bounds them statically",
}
