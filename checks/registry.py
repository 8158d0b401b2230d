"""What each check is, for the evidence files."""
import os

CHECKS = {}


def reg(pid, **kw):
    kw.setdefault("level", "model_checking")
    CHECKS[pid] = kw


COMMON = ["secure_random's generator is replaced by an owned tape (checked on its own by C17)",
          "eager execution on logical CPU devices stands for the distributed run (graph runs: C20)"]

reg("C01", shards=4, assumptions=COMMON,
    rule="a state is one (value, random tape, way of entering) triple executed on the real protocol; every triple within the bounds is executed once; non-trivial: all")

TAPE_RULE = ("a state is one assignment of operands and random draws of the program, executed on the real protocol and compared with "
             "exact integer arithmetic; small rings: all operands x all tapes (or all tapes within the deviation bound given in "
             "coverage.tapes); production rings: all pairs of the boundary alphabet; all are non-trivial executions")

reg("C02", shards=8, assumptions=COMMON, rule=TAPE_RULE)
reg("C03", shards=8, assumptions=COMMON, rule=TAPE_RULE)
reg("C04", shards=8, assumptions=COMMON, rule=TAPE_RULE)
reg("C05", shards=8, assumptions=COMMON, rule=TAPE_RULE.replace("exact integer arithmetic", "the exact quotient"))
SHAPE_RULE = ("a state is one (operation, arguments, shape, kind of tensor) combination executed on the real protocol and compared with numpy; "
              "every combination within the listed bounds is executed; all are non-trivial")
reg("C06", shards=8, assumptions=COMMON, rule=SHAPE_RULE)
VIEW_RULE = ("a state is one assignment of secrets and random draws of a program, executed on the real protocol while everything each party's operations read is recorded; "
             "the multiset of views over all draws the party does not know is compared between all secrets; all are non-trivial executions")
GRID_RULE = ("a state is one grid point of the input range (equidistant or logarithmic points, every power of two, integer and half-integer with its "
             "two neighbours on the fixed-point grid) pushed through the real protocol; every point of the grid is executed; all are non-trivial")
reg("C07", shards=8, assumptions=COMMON + ["the error bound is checked at the points of the grid, not between them"], rule=GRID_RULE)
reg("C08", shards=8, assumptions=COMMON + ["a party's view is what operations placed on its device read, plus the keys that reach its device",
                                         "rings of 1 to 4 bits stand for the production rings (the protocol code is generic in the ring)"], rule=VIEW_RULE)
reg("C09", shards=8, assumptions=COMMON, rule=("a state is one protocol call of a session whose random draws (seed, shape, range, device) are logged by the owned generator; "
    "every ordered pair of masking operations (thorough: triple) is run in one session, every operation three times in a row; graph functions: repeated calls on the same shares"))
reg("C10", shards=8, assumptions=COMMON, rule=TAPE_RULE + "; shapes: " + SHAPE_RULE)
reg("C11", shards=8, assumptions=COMMON + ["a party's view is what operations placed on its device read, plus the keys that reach its device",
    "rings of 1 to 3 bits stand for the production rings", "interactive truncation hides statistically: the distance is measured on a ring of 8 bits"], rule=VIEW_RULE)
reg("C12", shards=8, assumptions=COMMON + ["rings of 3 and 4 bits (with 2^k-1 as odd modulus) stand for the production rings in the exhaustive part; the library's odd tensors are bound to them by comparing both with integers modulo 2^n-1",
    "the largest word of the ring is outside the supported range"], rule=TAPE_RULE)
reg("C13", shards=8, assumptions=COMMON + ["a party's view is what operations placed on its device read, plus the keys that reach its device",
    "rings of 2 and 3 bits (with 2^k-1 as odd modulus and a prime of 5) stand for the production rings"], rule=VIEW_RULE)
WORD_RULE = ("a state is one combination of operand words and parameters of one operation executed on the real back-end and compared with exact integers; "
             "8-bit and small-modulus rings: all pairs of elements; wider rings: all pairs of the boundary alphabet; all are non-trivial executions")
reg("C14", shards=8, assumptions=COMMON[:1], rule=WORD_RULE)
reg("C15", shards=8, assumptions=COMMON[:1] + ["the 128-bit generator's statistics are looked at on a fixed set of keys"], rule=WORD_RULE)
reg("C16", shards=8, assumptions=["128-bit kernels: C15"], rule=WORD_RULE)
reg("C17", shards=8, assumptions=["libsodium's keystream and entropy are sound (a scripted keystream replaces them)"],
    rule="a state is one (type, range, keystream words) combination executed by the real kernel built over a scripted keystream, or one call of the library's generators; all are non-trivial")
reg("C18", shards=8, assumptions=["the file system keeps what was written", "the rest: C01"],
    rule="a state is the list of records each file holds after a prefix of a history of writes and appends; all histories up to the depth in coverage are executed on real files and read back in every batch size; faults: every share file x way of failing; torn files: every byte")
reg("C19", shards=8, assumptions=COMMON, rule="a state is the content of three variables and the tensors kept after a prefix of a history of assignments, computations and reads; all histories up to the depth are executed in one session and compared with a model of the store; pairs: every operation with every listed argument, each before each other")
reg("C20", shards=8, assumptions=COMMON[:0] + ["the real random generator is used inside graphs"], rule="a state is the content of the variables after a prefix of a sequence of calls of functions and direct operations; all sequences up to the depth are executed and compared with a model; programs: every operation with every listed argument as the body of a function, called with several inputs")
reg("C21", shards=8, assumptions=["one thread; contexts are left in the reverse order of entering"], rule="a state is the stack of protocol contexts after a prefix of a sequence of entering, leaving, raising and setting; all well nested sequences up to the depth are executed; configurations: all ordered choices of up to 3 (thorough: 5) player names; roles: every ordered choice of players")
reg("C22", shards=8, stall=150, assumptions=["a TensorFlow queue is itself first in first out; operations on one of the two servers' queues are atomic", "64-bit fixed point (the queues do not take 100-bit values)"], rule="a state is the content of the queues after a prefix of a history of enqueues and dequeues (or of requests, server steps and answers); all histories up to the depth that never wait are executed; interleavings: every order in which operations of concurrent threads reach the two servers' queues, run on the real code under a scheduler that stops each thread before each queue operation")
reg("C23", shards=8, assumptions=COMMON + ["gradients through sigmoid are taken at the layer's own output, whose error C07 bounds"], rule="a state is one layer configuration (every combination of the listed constructor options, shapes and kinds of input) run forward and backward on the real protocol and compared with TensorFlow's float64 result and gradient; histories: all sequences of calls, new weights and backward passes up to the depth")
reg("C24", shards=8, assumptions=COMMON + ["approximated activations and logarithms are taken from the library (C07 bounds their error)"], rule="a state is the weights and optimizer state after a prefix of a sequence of updates: every sequence of gradients over the alphabet, every division of the data into batches, every word over training, predicting, new weights and compiling again, compared with the same rule in float64")
reg("C25", shards=8, assumptions=COMMON + ["onnx's reference evaluator and tf2onnx are right"], rule="a state is one graph (every listed operation with every combination of its attributes and shapes within the bounds, chains, graphs with several uses, names and storage forms) converted and run on private inputs, forward and (where there is a backward pass) backward, compared with the ONNX reference evaluator and its finite differences, or with TensorFlow; training: sequences of steps")
reg("C26", shards=8, assumptions=COMMON, rule="a state is one input, computation or output (every player, form, protocol, kind of argument and result), one chain of computations over every path of players, one secret with one random tape watched at every bystander's device, or one history of passes over a data owner's batches")
