"""which units and replays decide which property"""
GLOBAL_TRUST = [
    'Verus 0.2026.09.13 and its Z3; the vstd specifications of the std functions used',
    'the extractor vx (syn): rewrites listed in DESIGN.md; diagnostics (warn!/error!/eprintln!) are dropped',
    'rustc/LLVM compile the checked source faithfully; usize is 64 bits',
]

THUMB_A = ['the code bytes are well-formed Thumb code of the stated architecture, halfword aligned, shorter than 2^31 bytes, with sorted mapping symbols at distinct addresses',
           'std slice::binary_search_by, chunks_exact(2).zip(0..) and u16::count_ones behave as documented',
           'thumb::matches: trusted in the proof, checked completely on every run (2^16 halfwords x every pattern literal)']
MAX_A = ['petgraph (is_cyclic_directed, kosaraju_scc, Topo over Reversed, neighbors_directed, indexing) behaves as documented; std iterators yield every item once, in order; Vec::contains compares elements',
         'sums of known frames stay below 2^64',
         'the extracted block of run is entered with no maximum set (Node values are built with max: None)']
STR_A = ['strings are sequences of Unicode scalar values; str methods used (strip_prefix, starts_with, get(a..), [..b], bytes, len) behave as documented']
SIG_A = STR_A + ['derive(PartialEq, Eq, Hash) on Type and FnSig is structural (the extraction checks that the derives are there)', 'the printers run with default formatter options (`{}`)',
                 'names of type aliases are written as LLVM writes them, without a double quote']
NAME_A = STR_A + ['rustc_demangle::demangle is a function of the symbol name; a HashMap entry holds what was last stored under the key',
                  'fewer than 2^32 functions', 'the extracted blocks of run are executed in the order count, filter, shorten (checked by the extraction) and the map of ambiguous names reaches the second block unchanged']
FILTER_A = ['petgraph (Dfs, neighbors().detach(), add_node, add_edge, indexing) behaves as documented; derive(Clone) on Node copies every field (the extraction checks that it is derived)',
            'the name-to-node map leads to nodes of the graph (established where the nodes are made; see C20)']
OUT_A = STR_A + ['petgraph raw_nodes / raw_edges yield every node / edge once, in index order; io::Write for Stdout writes what it is given or fails',
                 'Display of unsigned integers is decimal; Display of rustc_demangle::Demangle writes the demangled name in pieces up to the first failed write',
                 'slice::sort_by permutes into comparator order', 'Escaper<W> is used with W = &mut StdoutLock only']
NODE_A = STR_A + ['std HashMap / HashSet / BTreeMap and petgraph add_node behave as documented; a BTreeMap iterates over every entry once',
                  'every function has a name that is not a mapping symbol, and no name is used at two addresses (the symbol table reader gives both; see DESIGN.md)']
EDGE_A = STR_A + ['std HashMap / HashSet / BTreeMap and petgraph add_node / add_edge behave as documented; a HashMap iterates over every entry once',
                 'the name maps agree where the edge loop is entered: every name of a function leads to its node, and so does its canonical name (see C20)',
                 'FnSig::loosely_equal is the relation of C09']
CODE_A = ['xmas-elf reports the sections, symbols and addresses the file contains; find_section_by_name, raw_data, get_data, value, get_name are functions of the file',
          'addresses and sizes are below 2^32, no function lies below the start of .text, and branch targets neither wrap around nor cross 2^31 (32-bit program)',
          'every function and every address leads to a node of the graph, different functions to different nodes (what unit nodes establishes for typical symbol tables; see C20)',
          'what thumb::analyze returns is a function of the bytes, the address, the target and the mapping symbols; its meaning is the contract of unit thumb',
          'slice::sort_by permutes into comparator order; Vec::binary_search_by finds an element equal to the key iff there is one']
WRAP_A = STR_A + ['std::process::Command runs the given program with exactly the arguments added, in order; env::args yields the command line; eprintln! writes one line',
                  'the arguments are valid UTF-8 (env::args stops the tool otherwise); the text of error messages is not specified',
                  'the rest of `run` is not reached in the wrapper role (its first statement is extracted; the extraction fails if there is none)']
INPUT_A = ['stack_sizes::analyze_object / analyze_executable and the archive reader report what the files contain; File::open, read_to_end and from_utf8 behave as documented',
           'no two functions lie at addresses that differ in the Thumb bit only; an undefined symbol carries at most one `@@` version',
           'the blocks of run are executed in order and the maps they fill are not changed afterwards (the extraction checks that no later statement of run inserts into or removes from them)']
PARSER_A = ['nom 7 (tag, char, digit1, space0/1, line_ending, not_line_ending, is_not, take_until, take_while1; alt, tuple, map, map_res, opt, many0/1, separated_list0/1, delimited, preceded, terminated, separated_pair as lowered by the extraction) behaves as documented',
            'usize::from_str of digits is the number they stand for; char::is_alphanumeric / is_alphabetic are functions of the character',
            'the parser terminates within the stack it has (not claimed); where it stops with an error the tool stops with an error']
IR_NOTE = ' The parser (unit parser) is proved sound: what it returns is what the text says, every statement it passes over has no call in it, and nothing of the text is left out. That it accepts all the LLVM-IR rustc writes (rather than stopping with an error) is exercised by generated programs only (bounded).'
CHECKS = {
    'C01': dict(units=['thumb', 'code', 'inputs'], harness=[('matches', 1), ('thumb', 20000)], e2e=[('thumb', 20000)], assumptions=THUMB_A + CODE_A + INPUT_A),
    'C02': dict(units=['thumb', 'code'], harness=[('matches', 1), ('thumb', 20000)], e2e=[('thumb', 20000)], assumptions=THUMB_A + CODE_A),
    'C03': dict(units=['thumb', 'code'], harness=[('matches', 1), ('thumb', 20000)], e2e=[('thumb', 20000)], assumptions=THUMB_A + CODE_A),
    'C04': dict(units=['thumb'], harness=[('matches', 1), ('thumb', 20000)], e2e=[('thumb', 20000)], assumptions=THUMB_A),
    'C05': dict(units=['lattice'], harness=[], e2e=[('max', 12000), ('acyclic', 12000)], assumptions=['u64 Ord::max/min behave as documented', 'sums of known frames stay below 2^64']),
    'C06': dict(units=['lattice', 'maxstack'], harness=[], e2e=[('acyclic', 20000)], assumptions=MAX_A),
    'C09': dict(units=['sig'], harness=[], e2e=[('sig', 20000)], assumptions=SIG_A),
    'C12': dict(units=['sig'], harness=[], e2e=[('sig', 20000)], assumptions=SIG_A),
    'C08': dict(units=['filter', 'names'], harness=[], e2e=[('filter', 20000)], assumptions=NAME_A + FILTER_A),
    'C10': dict(units=['edges', 'fict', 'nodes', 'parser'], harness=[], e2e=[('sig', 20000)], assumptions=EDGE_A + NODE_A[2:] + PARSER_A, note_more=IR_NOTE),
    'C11': dict(units=['edges', 'inputs', 'parser'], harness=[], e2e=[('ir', 20000)], assumptions=EDGE_A + INPUT_A + PARSER_A, note_more=IR_NOTE),
    'C17': dict(units=['edges', 'code', 'parser'], harness=[], e2e=[('ir', 12000), ('thumb', 12000)], assumptions=EDGE_A + CODE_A + PARSER_A, note_more=IR_NOTE),
    'C18': dict(units=['edges', 'inputs', 'parser'], harness=[], e2e=[('ir', 20000)], assumptions=EDGE_A + INPUT_A + PARSER_A, note_more=IR_NOTE),
    'C19': dict(units=['nodes', 'code', 'inputs'], harness=[], e2e=[('thumb', 20000)], assumptions=NODE_A + CODE_A + INPUT_A),
    'C20': dict(units=['nodes', 'inputs'], harness=[], e2e=[('names', 12000), ('ir', 12000)], assumptions=NODE_A + INPUT_A),
    'C13': dict(units=['names'], harness=[], e2e=[('names', 20000)], assumptions=NAME_A),
    'C14': dict(units=['output'], harness=[], e2e=[('names', 12000), ('max', 12000)], assumptions=OUT_A),
    'C15': dict(units=['output', 'lattice'], harness=[], e2e=[('names', 12000), ('max', 12000)], assumptions=OUT_A),
    'C16': dict(units=['wrapper'], harness=[], e2e=[('wrapper', 12000)], assumptions=WRAP_A),
    'C07': dict(units=['lattice', 'maxstack'], harness=[], e2e=[('max', 20000)], assumptions=MAX_A),
}

NOTE = ('Verus discharges the contracts of the extracted real functions for all inputs on every run; trusted: Verus/Z3, the extraction, the contracts assumed '
        'for std and dependencies, and the glue named in DESIGN.md. Generated programs run through the real binary only look for failing inputs and stand in (bounded) where a proof is undecided.')
NOT_APPLICABLE = {}
