#!/usr/bin/env python3
"""properties.jsonl is written from here"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))
FEW = 'The tests decode a couple of hand-picked instructions, and the end-to-end tests use a handful of firmware programs; '
p('C01', 'Every direct Thumb call and out-of-function branch becomes a call edge',
  'On Thumb targets, for every function with well-formed machine code, the call graph has an edge from it to the target of each BL and of each B instruction (16-bit or 32-bit, conditional or not, either direction) whose target lies outside the function, the target being computed exactly as the architecture defines. Branches inside the function are not calls, and no other instruction and no literal word produces a direct-call edge.',
  ['inputs', 'programs'], 'all halfword sequences that are well-formed ARMv6-M/ARMv7-M code, at every address, with every placement of mapping symbols',
  FEW + 'the offset arithmetic (S, I1/I2, J1/J2, sign extension, PC = address + 4) must be right for every one of the 2^24 offsets and every position.',
  ['src/thumb.rs', 'src/main.rs'], [('Thumb decoder', 'src/thumb.rs: analyze, sign_extend'), ('edges from machine code', 'src/main.rs: run, loops over the decoded BL / B offsets')],
  ['dot output edges'], [('bls', 'offsets of BL targets', 'src/thumb.rs: analyze'), ('bs', 'offsets of B targets', 'src/thumb.rs: analyze')])
p('C02', 'Indirect Thumb calls in code without type info reach the unknown node',
  'On Thumb targets, a function that is not described by the LLVM-IR and whose machine code contains an indirect call or tail call (BLX or BX through a register other than the `bx lr` return) gets a call edge to an unknown `?` node, so its maximum is never presented as exact. A function without such an instruction gets no such edge.',
  ['inputs', 'programs'], 'all well-formed Thumb functions',
  FEW + 'missing one register encoding silently turns a lower bound into an exact claim.',
  ['src/thumb.rs', 'src/main.rs'], [('BX/BLX decoding', 'src/thumb.rs: analyze'), ('injection of `?`', 'src/main.rs: run, `!defined.contains(..) && indirect`')], ['dot output: `?` node and edge'],
  [('indirect', 'an indirect branch was decoded', 'src/thumb.rs: analyze')])
p('C03', 'Literal data inside Thumb functions is never decoded as instructions',
  'When a Thumb function contains data delimited by mapping symbols (`$d` ... `$t`), the data contributes no call, no indirect call and no stack usage, and the instructions behind it are decoded from their true start. Instruction boundaries follow the 16-bit/32-bit length rule of the architecture throughout, and no well-formed function makes the tool panic.',
  ['inputs', 'programs'], 'all functions and all placements of mapping symbols, including consecutive `$d` symbols and data that runs to the end of the function',
  'One loss of synchronisation mis-decodes everything that follows; only one unit test contains a data section.',
  ['src/thumb.rs'], [('data skipping', 'src/thumb.rs: analyze, binary search over the tags'), ('instruction length', 'src/thumb.rs: analyze, 32-bit prefixes')], ['dot output of functions with literal pools'],
  [('tags', 'sorted mapping symbols', 'src/main.rs: run / src/thumb.rs: analyze')])
p('C04', 'Stack usage computed from Thumb code counts every SP allocation exactly',
  'For a Thumb function without internal branches, the frame size computed from machine code is the exact sum of the bytes allocated by PUSH, STMDB SP!, VPUSH, SUB/SUBW SP with an immediate and STR pre-indexed by SP; with an internal branch no value is claimed. The function is recognised as changing SP if and only if it contains one of these instructions.',
  ['inputs', 'programs'], 'all well-formed Thumb functions; every register list and every encodable immediate',
  FEW + 'the modified-immediate expansion and the register-list counting have thousands of encodings.',
  ['src/thumb.rs'], [('SP-modifying instructions', 'src/thumb.rs: analyze, thumb_expand_imm')], ['local stack usage in the dot and top outputs'],
  [('stack', 'bytes allocated so far, None after an internal branch', 'src/thumb.rs: analyze'), ('modifies_sp', 'an SP-modifying instruction was decoded', 'src/thumb.rs: analyze')])
p('C05', 'Combining stack usages never claims more precision than its inputs allow',
  'Adding or taking the maximum of stack figures yields an exact value (`= N`) only if every input is exact, and then it is the true sum or maximum; otherwise it yields a lower bound (`>= N`) that is the sum or maximum of the known parts, an unknown frame contributing 0. The maximum over a collection does not depend on its order, and an empty collection has none.',
  ['inputs'], 'all pairs and all finite collections of exact/lower-bound values, all exact/unknown frames (sums below 2^64)',
  'No unit test exercises the arithmetic; the end-to-end tests only see the combinations of a few firmware programs.',
  ['src/main.rs'], [('Max + Local, Max + Max, max, max_of, Local -> Max', 'src/main.rs')], ['`max` lines of the dot output', '`MAX` line of the top output'])
p('C06', 'Maximum stack usage is the heaviest call chain when there is no recursion',
  'In a call graph without recursion every function\'s reported maximum is its own frame plus the largest maximum among the functions it calls (its own frame if it calls none). It is shown as exact (`= N`) if and only if every function reachable from it has a known frame, and as a lower bound (`>= N`), counting unknown frames as 0, otherwise.',
  ['inputs', 'programs'], 'all acyclic call graphs with at least one known frame and any pattern of known/unknown frames',
  'The result must be right for every graph shape and every traversal order; the tests look at a few graphs produced by one compiler.',
  ['src/main.rs'], [('topological traversal of the reversed graph', 'src/main.rs: run, "compute max stack usage"')], ['`max` lines of the dot output', '`MAX` line of the top output'],
  [('Node.max', 'maximum stack usage', 'src/main.rs: Node')])
p('C07', 'Recursive functions get a lower bound, exact only for frameless cycles',
  'For functions in a recursive cycle the reported maximum is the largest frame in the cycle plus the largest maximum among the functions called from the cycle, shown as a lower bound unless every frame in the cycle is known to be zero and the maxima below it are exact. Functions outside cycles get their own frame plus the largest maximum of their callees, and every cycle (including self-recursion) and only cycles are reported as SCC clusters.',
  ['inputs', 'programs'], 'all call graphs with at least one cycle',
  'Depends on the order in which strongly connected components are visited and on every mix of self loops, nested and chained cycles.',
  ['src/main.rs'], [('SCC traversal', 'src/main.rs: run, kosaraju_scc block')], ['`max` lines and `subgraph cluster_` blocks of the dot output'],
  [('cycles', 'SCCs reported as clusters', 'src/main.rs: run')])
p('C08', 'A start point keeps exactly the call graph reachable from it',
  'With a start point, the output contains exactly the functions reachable from it through call edges, with exactly the edges among them and unchanged names, frames and styles. The start point is found by its exact symbol name or by its full demangled path without hash; when no function or several functions match by path, the graph is not filtered.',
  ['inputs', 'programs', 'configurations'], 'all graphs (cyclic or not, with duplicate paths) and all start points',
  'No test passes a start point together with a checked output.',
  ['src/main.rs'], [('start point lookup and filter', 'src/main.rs: run, "filter the call graph"')], ['dot output nodes and edges'],
  [('one2two', 'old node -> new node', 'src/main.rs: run')])
p('C09', 'Indirect calls are matched by signature, with `ptr` matching any pointer',
  'An indirect call through a function pointer of some signature is connected to a function if and only if both have the same number of parameters, both return a value or neither does, and parameter by parameter and in the return value the types are equal, where the opaque pointer `ptr` is compatible with every pointer type. The relation is reflexive and symmetric.',
  ['inputs', 'programs'], 'all pairs of signatures over all types the IR reader can represent',
  'The tests compare no signatures directly; the end-to-end tests contain only a few function-pointer types.',
  ['src/ir.rs', 'src/ir/ty.rs', 'src/main.rs'], [('loosely_equal', 'src/ir.rs: FnSig::loosely_equal, src/ir/ty.rs: Type::loosely_equal'), ('matching', 'src/main.rs: run, Stmt::IndirectCall')], ['edges of the function-pointer nodes'])
p('C10', 'Every indirect call goes through a function-pointer node listing all candidates',
  'For every function that performs an indirect call described by the LLVM-IR, the graph has a dashed, zero-frame node labelled with each compatible function signature and `*`, an edge from the caller to it, and edges from it to every function of that signature that is alive in the program. When the program contains symbols without type information every such node also gets an edge to an unknown `?` node; signatures that are never called get no node.',
  ['inputs', 'programs'], 'all sets of signatures, callers and callees, with and without untyped symbols; formatter calls are matched to all formatter methods',
  'The tests contain a handful of function pointers and never a symbol without type information.',
  ['src/main.rs'], [('indirect-call table', 'src/main.rs: run, `indirects`'), ('fictitious nodes', 'src/main.rs: run, "add fictitious nodes for indirect function calls"')], ['dashed nodes and their edges in the dot output'],
  [('indirects', 'signature -> callers, callees', 'src/main.rs: run')])
p('C11', 'Every call written in the LLVM-IR of a live function is in the call graph',
  'For every live function and every call statement in its LLVM-IR body (direct calls, calls through a bitcast, tail calls, with or without attributes and result), the graph has an edge from the function to the callee, creating an undefined-symbol node where needed. The only calls without an edge are compiler intrinsics that emit no call, inline assembly, and `memcmp` when no such symbol is linked in; a call the tool cannot understand stops it instead of being dropped.',
  ['inputs', 'programs'], 'all functions, all sequences of call statements and all intrinsic names',
  'Unit tests parse a few dozen statements; whether one of thousands of calls is dropped is not observable in them.',
  ['src/main.rs', 'src/ir/define.rs'], [('edges from IR statements', 'src/main.rs: run, "add edges"'), ('statement parser', 'src/ir/define.rs: stmt')], ['dot output edges'],
  [('edges', 'caller -> callees already linked', 'src/main.rs: run')])
p('C12', 'Distinct function-pointer types never share a label',
  'The label of a function-pointer node is the LLVM notation of the signature: return type, parameter types in order, all nested types in full. Two different signatures built from well-formed types never have the same label, and reading the label back yields the same signature.',
  ['inputs'], 'all signatures', 'Unit tests print a few types.',
  ['src/ir.rs', 'src/ir/ty.rs'], [('Display for FnSig and Type', 'src/ir.rs, src/ir/ty.rs')], ['labels of dashed nodes'])
p('C13', 'Names are shortened only when that stays unambiguous',
  'A function\'s label drops the trailing `::h<16 hex digits>` hash if and only if its demangled name ends in such a hash and no other function in the program has the same path without the hash. Otherwise the label is the full demangled name, so two different functions never end up with the same shortened label.',
  ['inputs', 'programs'], 'all symbol names, including non-Rust names, names with look-alike or non-ASCII endings, and undefined symbols',
  'The end-to-end tests look at a few names; colliding paths or look-alike hashes do not occur in them.',
  ['src/main.rs'], [('hash recognition', 'src/main.rs: dehash'), ('shortening', 'src/main.rs: run, "ambiguous"')], ['labels in the dot and top outputs'],
  [('ambiguous', 'number of symbols per dehashed path', 'src/main.rs: run')])
p('C14', 'The dot output is well formed and renders the graph faithfully',
  'The dot output has exactly one node statement per function, with its escaped label, its maximum if known (`max = N` or `max >= N`) and its frame (`local = N` or `local = ?`), dashed if and only if it is a function-pointer node, exactly one edge statement per call edge in the right direction, and one cluster per cycle listing exactly its members. Whatever characters a name contains, a double quote never ends the label early, and nothing of the name is lost.',
  ['inputs'], 'all graphs and all names', 'The tests never parse the dot output and contain no name with quotes.',
  ['src/main.rs'], [('dot writer', 'src/main.rs: dot'), ('escaping', 'src/main.rs: Escaper')], ['stdout with --format dot'])
p('C15', 'The top output lists every function by decreasing frame with the overall max',
  'The top output starts with the largest maximum over all functions followed by `MAX`, then lists every function exactly once with its own frame (0 if unknown) in non-increasing order of frame. Names are escaped as in the dot output.',
  ['inputs'], 'all graphs', 'One end-to-end test looks for a line in the output; order, completeness and the maximum are not checked.',
  ['src/main.rs'], [('top writer', 'src/main.rs: top')], ['stdout with --format top'])
p('C16', 'The rustc wrapper only adds what it must and reports the right paths',
  'As a rustc wrapper the tool runs the given compiler exactly once with all original arguments in their original order, adding only `-Zemit-stack-sizes` and, for the crate `compiler_builtins`, `--emit=llvm-ir`, and it exits with the compiler\'s own exit code. It reports the compiler_builtins library path given by `--extern` (with or without an option prefix such as `noprelude:`) and, for that crate, the `.ll` path built from the output directory, crate name and `-C extra-filename` (both `-C x=y` and `-Cx=y` spellings).',
  ['inputs', 'configurations'], 'all rustc command lines as Cargo writes them (the options in question are present where needed, spelled `--option value`, and every argument is UTF-8) and all exit codes', 'No test runs the wrapper with unusual argument lists.',
  ['src/wrapper.rs'], [('argument scan', 'src/wrapper.rs: RustcArgs::parse'), ('spawn', 'src/wrapper.rs: wrapper')], ['the child process\'s arguments, stderr markers, exit code'])
p('C17', 'A call relationship is one edge, however often and however it is expressed',
  'For two functions the graph contains at most one edge from one to the other, no matter how many call statements there are, through how many aliases the callee is named, or whether the call is seen both in the LLVM-IR and in the machine code.',
  ['inputs', 'programs'], 'all sequences of call statements and machine-code calls', 'The tests do not count edges.',
  ['src/main.rs'], [('callees_seen', 'src/main.rs: run')], ['dot output edges'], [('edges', 'caller -> callees already linked', 'src/main.rs: run')])
p('C18', 'Memory intrinsics become calls to exactly the library routines they may lower to',
  'On targets whose machine code is not decoded, a call to an `llvm.memcpy`, `llvm.memmove` or `llvm.memset` intrinsic yields edges to every linked-in routine of its own family (the C name and the `__aeabi_` variants, for memset also memclr) and to no routine of another family. On Thumb targets such intrinsics alone yield no edge, because the machine code decides.',
  ['inputs', 'programs', 'configurations'], 'all intrinsic variants, all subsets of linked-in routines, all targets', 'No test covers a target with these symbols and checks the edges.',
  ['src/main.rs'], [('llvm.mem* handling', 'src/main.rs: run, Stmt::DirectCall')], ['dot output edges'])
p('C19', 'Each function shows its own recorded frame, corrected only where documented',
  'A function\'s frame is the one recorded by the compiler under its own name or one of its aliases, and unknown otherwise. On Thumb the value computed from machine code replaces it only if the compiler recorded none, if the function contains inline assembly, or if it is an LLVM-outlined function recorded as 0; a function without a recorded or computed value that does not touch SP gets 0, and any other disagreement stops the tool.',
  ['inputs', 'programs', 'configurations'], 'all combinations of recorded value, computed value, SP use, inline assembly and outlined names', 'The firmware tests contain few assembly functions and no outlined function.',
  ['src/main.rs'], [('attribution', 'src/main.rs: run, "add all real nodes"'), ('override', 'src/main.rs: run, "also override LLVM\'s results"')], ['`local` in the dot output'])
p('C20', 'All names of one address are one function',
  'Functions that share an address appear as a single node; a call to any of the names leads to that node, and the frame recorded under any of the names and every signature or body given for any of the names belongs to that node. Mapping symbols never count as names.',
  ['inputs', 'programs'], 'all symbol tables', 'The tests hardly contain aliases.',
  ['src/main.rs'], [('aliases', 'src/main.rs: run, "add all real nodes"')], ['dot output nodes and edges'], [('aliases', 'name -> canonical name', 'src/main.rs: run')])
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
