#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist and the table below (run by hand after adding a rule)"""
import json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import check
PATHS = 'path-sensitive dataflow over the LLVM IR of the library (callees inlined, generic loop iterations)'
TECH = {
    'C01': ('bit-provenance dataflow from value to stream bytes', 'Every bit of every byte transferred by the scalar and ID functions is traced to its source on all success paths, for both byte orders; arithmetic that is not bit selection is compared on byte patterns.'),
    'C02': ('path effects on the output stream at representative sizes', 'Order, content and number of bytes of a written chunk on every success path, for declared/processed sizes covering every ordering and parity; negative declared sizes must fail.'),
    'C03': ('path effects on the input stream at representative sizes', 'Bytes consumed around the handler on every success path, for declared/processed sizes covering every ordering and parity.'),
    'C04': ('error-discipline dataflow: admissible failure outcomes per path', 'For every fallible step of every write path: no failure outcome of the step is compatible with a path reporting success, and no path reports failure when all steps may have succeeded.'),
    'C05': ('error-discipline dataflow: admissible failure outcomes per path', 'For every fallible step of every read path: no failure outcome of the step is compatible with a path reporting success, and no path reports failure when all steps may have succeeded.'),
    'C06': ('loop-summary dataflow: iteration order, element and count per round', 'The loops of the group readers and writers are summarised by a generic round; position, guard and count are compared with the specification for array lengths 0-3 and both parities.'),
    'C07': ('path guards evaluated on an ordering-complete set of sizes', 'Field functions: status, count and stream effect on every path for all orderings of declared size, processed count and field size including the extremes.'),
    'C18': ('loop-summary dataflow: size arithmetic evaluated at representative sizes', 'Size accounting of additions and recomputation, for lengths 0-3, both parities and every kind; sums at and beyond the largest chunk size; ancestors through the parent link; adding and recomputing also on a live abstract heap whose stores take effect.'),
    'C19': ('memory-effect dataflow of construction functions', 'What the construction functions leave in the group, its array and the chunk, per success path; content-type updates over all orderings of types; adding also on a live abstract heap (array moved, kept or refused).'),
    'C22': ('call graph effect query over the whole library plus stream provenance per path', 'No terminating, handler-installing or descriptor-level function is referenced; standard error only inside the initial error callback; standard output only from printing operations; streams used come from parameters or an own fopen.'),
    'C23': ('format/argument lint over every call site, widths from the IR', 'Every call of a printf-like function or wrapper: constant format text, number, kind and width of arguments, terminated strings.'),
    'C24': ('global-store effect analysis', 'No store, libc call or escape modifies a global other than the error callback; no libc function with hidden state; nothing reached through a registry is stored to.'),
    'C27': ('layout query on debug info plus extent dataflow of registered handlers', 'Member offsets and widths across all chunk structures; per handler table row the extent every handler accesses against the size its create function allocates; member arrays handled per kind.'),
    'C12': ('lookup summary evaluated over a finite family of abstract registries; comparator ordering classes; table queries', 'Every combination of form type registered or not, table chains of length 0-3 with or without the ID, and position of the ID; comparators on pairs across the signed and unsigned boundaries; shipped tables sorted, complete and of true length.'),
    'C13': ('context-argument provenance at every chunk operation, lookup and handler call', 'Registry, enclosing type, ID, handler function and chunk arguments on every path of the chunk operations, the group and list handlers, the entry points and the tools.'),
    'C14': ('decision tree of path conditions decided on the exact partition of all IDs', 'The conditions of both predicates partition each character position; every tuple of classes and every singled-out ID is decided, which together covers all 2^32 IDs. Where a condition spans characters, boundary IDs in every position are decided instead.'),
    'C15': ('check summaries evaluated over a finite family of abstract groups with nested checks as oracles', 'Kind, group type, members (kinds, types, outcomes, sizes of both parities, counts 0-3), shared properties and declared size, including declared sizes a truncated or continued sum would match; the main chunk test on every kind.'),
    'C16': ('comparison summaries evaluated over pairs of abstract groups and payloads with nested comparisons as oracles', 'Every pair of member sequences of length 0-2 and selected ones of length 3 over two labels, group types, property sequences; payloads differing in one bit at each position; extents of memcmp at boundary sizes.'),
    'C17': ('effect analysis: provenance of every store, bulk write and release target', 'All stores, bulk writes, releases and handler calls on all paths of every write/check/print/compare/search/get/find function and registered handler; targets reached from the objects inspected are violations.'),
    'C20': ('modular contracts: search summaries evaluated with member searches and merges as oracles', 'Every kind of chunk, type match at every position, member result patterns over lengths 0-3, allocation failure; the merge and the entry point separately. Induction over the hierarchy gives the property for any depth.'),
    'C21': ('lookup summaries evaluated over a finite family of abstract hierarchies', 'Chains of up to seven enclosing chunks of every kind with every pattern of shared properties, own members in several patterns, near-miss IDs; retrieval over all member patterns up to length 3 and failing allocations.'),
    'C25': ('effect-order evaluation of the tool summaries with library operations as oracles', 'Up to four inputs with the failing step (read, check, add, create, write) at every position, named output and standard output; command line handling over option sets and up to twenty inputs; the option tables; the target and mode the output is opened with.'),
    'C26': ('effect-order evaluation of the tool summaries with library operations as oracles', 'Readable or not, valid or not, checking disabled or not, file name or standard input; command line handling over option sets; how many times and what is printed, the exit status, and a standard output that fails while printing or when flushed.'),
    'C29': ('printer summaries evaluated over abstract hierarchies with nested printing as oracle; format strings rendered', 'IDs, sizes, indents; 0-5 members and 0-4 shared properties per group kind; payload lengths around every row boundary with bytes on both sides of each digit boundary; TEXT against near-miss IDs.'),
    'C30': ('transfer summaries of the raw chunk operations evaluated over payload lengths', 'Lengths on both sides of every width a size could be narrowed to (0 to 2^31-1); extents and order of every transfer, size member, payload allocation and count of processed bytes.'),
    'C08': ('resource typestate over every enumerated path and loop round (acquire, hand over, release, use), reported only with a model of the path facts', 'Memory blocks, chunks and files of every public operation of the library and tools, with helpers inlined; both outcomes of every reallocation; members left pointing at released memory.'),
    'C11': ('may-be-missing analysis of allocation results at every use, with models of the path facts', 'Every load, store, bulk transfer, handler call and library call through a fresh block or chunk; creation functions; members that survive; lengths reported for arrays that are missing.'),
    'C09': ('path summaries of IFF_freeChunk and the registered free handlers composed and evaluated over abstract hierarchies; ordered audit of reads and releases against ownership', 'Every kind of group with 0-17 (and 255-300) members, lists with 0-6 properties, nested groups five (thorough: eight) levels deep, payloads of 0 to 65536 bytes and without payload; registered handlers, public IFF_free* functions and IFF_free.'),
    'C28': ('generic-round loop summaries: a model of a round that consumes nothing and brings the loop back to its state; activation comparison for recursion', 'Every way round every loop of the library, module library and tools at representative counts including both sides of every counter width; counters, bounds, consumed input, followed links; arguments of every recursive call, direct or through handler tables, against those of the running activation; goto and empty loops.'),
    'C10': ('extent dataflow: every access joined with the extent recorded for its object at that point; guard matching, then unrolled rounds and models of the path facts', 'Loads, stores, bulk transfers, stream transfers, searches and array/length argument pairs of every public operation of the library and the tools, helpers inlined; loops in their first rounds, later ones where only the counter matters; recorded lengths against allocations at every path end; shipped tables; objects created per kind against what their handlers touch; comparisons only of equal sizes. Assumes that what is recorded on entry is true and that counts fit in memory.'),
    'C34': ('diagnostic obligations per path: failing paths without a callback call, accepting paths with one, reported only with a model of the path facts', 'Every path of every check, read, skip and write operation with helpers inlined; nested operations, handlers and allocations assumed successful; IDs with every kind of character in every position, sizes on both sides of each constant compared; flags carried round loops by constant propagation. Sizes are taken to be ordinary (no negative sizes or sums that wrap).'),
    'C35': ('compile-fail witnesses around the installed headers and a declaration query over the syntax tree', 'Every installed header alone and twice, all together in both orders, in C and C++; every source under all installed declarations at once; name lookup of every declaration and its definition in the IR.'),
    'C36': ('effect query over the whole call graph', 'Every function of the library and the tools and every function table: no reference to an operation that positions, measures, maps or reopens a stream.'),
    'C37': ('definite-initialisation dataflow over paths, with marked never-written memory and models of the path facts', 'Every path of every function of the library, module library and tools: branches, results, stored values, arguments and output depending on local variables or allocated blocks nobody wrote; every member of what a creation function returns; every output parameter of a success.'),
    'C38': ('effect comparison of failing paths: members at the end against members on entry, with a model of the path facts', 'Every path of every add, attach and set operation that reports failure, allocations failing at any point, helpers inlined; adding also on a live abstract heap.'),
}
LEVEL = {}
NA = {
    'C31': 'Round-trip equality quantifies over all hierarchies and both directions at once; no static argument in reach relates the two runs. Its structural ingredients (byte order, layout, consumption, completeness, same handler context, exact comparison) are claimed separately as C01-C03, C06, C13, C16.',
    'C32': 'Does not hold of this code by construction (nested chunks are read, checked, printed and freed by unbounded recursion on input-controlled depth) and cannot be repaired by a small change; stack consumption is a run-time quantity no rule here bounds.',
    'C33': 'Does not hold by design (a raw payload is allocated from the declared size before any of it is read); the relation between declared and present bytes is a run-time quantity.',
}


def main():
    reg = check.registry()
    props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in NA:
            na.append(dict(property=p, reason=NA[p]))
        elif p not in reg:
            na.append(dict(property=p, reason='check under construction'))
        else:
            t, note = TECH[p]
            checks.append(dict(property=p, quick_cmd='python3 -B check.py %s --tier quick' % p, thorough_cmd='python3 -B check.py %s --tier thorough' % p,
                               evidence_file='evidence/%s.json' % p, technique='static: ' + t, level='other',
                               level_note=(note + ' ' if note else '') + 'Decided from the IR of the current sources (' + PATHS + '); trusts clang\'s IR generation, the documented '
                               'behaviour of libc and that distinct memory bases do not alias; obligations the analysis cannot decide are listed in the evidence as undecided and raise no alarm.'))
    m = dict(version=1, setup_cmd='python3 -B iffsa/build.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. known_findings.txt lists the repaired defects. See DESIGN.md.')
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
