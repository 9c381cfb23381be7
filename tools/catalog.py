"""The property catalogue: writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None, state=None, observe=None, na=None, level='other', timeout=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append((d, note, technique, level))
    if na:
        NOT.append({'property': id, 'reason': na})


STD = 'symbolic execution of the compiled LLVM IR of the C standard library (release and debug builds), SMT (z3, cvc5 cross-check) against a reference semantics'
STDNOTE = 'Every value of the symbolic inputs within the stated bounds, on the optimised and the debug IR that the compiler links into contracts; counterexamples are replayed on the library linked to WebAssembly. Trusted: the IR executor, the host model, the reference semantics, z3.'
C = 'stdlib/chain.c'
M = 'stdlib/chain_math.c'
EM = 'stdlib/evm_memory.c'
TESTS = 'The crate\'s tests for this need the compiler toolchain and an external VM, and use a handful of constants; '

prop('S01', 'Word conversions preserve every 256-bit value', 'A 256-bit value keeps its value when it is converted between the big-endian byte form and the little-endian integer form, in either direction, and narrower integers widen to the same number. Booleans and addresses become the words the EVM defines for them.',
     ['inputs'], 'all 2^256 words and all narrower integers', TESTS + 'a byte-order or sign slip that shows for particular byte patterns only needs all values.',
     [M, C], [('conversion helpers', M)], STDNOTE, STD)
prop('S02', 'Comparisons and bitwise operations match the EVM on every operand', 'Equality, unsigned and signed comparison, zero tests, and, or, xor, not, byte selection and addition on 256-bit words give the EVM result for every pair of operands, whichever representation the operands are in. No operation changes its operands.',
     ['inputs'], 'all pairs of 256-bit words', TESTS + 'carry chains, sign bits and equal prefixes span 2^512 pairs.', [C, M], [('byte-wise word operations', C)], STDNOTE, STD)
prop('S03', 'Shifts and sign extension match the EVM for every amount', 'Shifting a word left or right by any amount, and sign-extending it from any byte position, gives the EVM result, including amounts at and beyond the word size.',
     ['inputs'], 'all words and all shift amounts and byte positions', TESTS + 'boundary amounts combined with sign bits are not sampled.', [C], [('shift and sign extension helpers', C)], STDNOTE, STD)
prop('S04', 'Exponentiation is exact modulo 2^256', 'Raising a word to a power yields base to the exponent modulo 2^256, with 0^0 = 1.',
     ['inputs'], 'all bases, with every exponent of up to the stated number of bits and exponents of every bit length', TESTS + 'only a few small powers are tried.', [C], [('square-and-multiply loop', C)], STDNOTE, STD)
prop('S05', 'Calldata reads are exact and zero-padded', 'Reading a word or copying a range of the transaction input returns exactly the input bytes, with zeros past its end, at every offset; the reported size is the input length. Copies touch exactly the destination range.',
     ['inputs'], 'all calldata contents and lengths within the bound, all offsets including those past the end', TESTS + 'offset, length and size boundaries interact.', [C], [('cached calldata access', C)], STDNOTE, STD,
     state=[('calldata cache', 'size and contents fetched from the host once', C)])
prop('S06', 'EVM memory behaves as an unbounded zeroed byte array', 'After any sequence of stores, copies and growth, every memory read returns the bytes last written there and zero elsewhere; growing or relocating the memory loses nothing, overlapping copies behave as if buffered, and the reported size is the highest touched word. Writes never damage anything outside the memory.',
     ['inputs', 'histories'], 'all contents and offsets within the windows, sequences crossing every growth and relocation boundary', TESTS + 'the boundaries of the preallocated buffer, of pages and of relocations are reached by particular histories only.', [EM, C], [('growth and relocation', EM), ('memory accessors', C)], STDNOTE, STD,
     state=[('memory region', 'start, end, accessible size', EM)])
prop('S07', 'Storage, transient storage and immutables read back what was stored', 'Every storage and transient-storage access uses exactly the given key and value words in the representation the host expects, and reads return the host\'s word unchanged; immutables return the value set under the same name.',
     ['inputs', 'histories'], 'all keys, values and operand representations, sequences of accesses', TESTS + 'key and value byte orders are only seen for small constants.', [C], [('storage wrappers', C)], STDNOTE, STD)
prop('S08', 'Environment queries return the host\'s values unchanged', 'Caller, origin, address, balances, value, gas price, block and chain data, external code and modular arithmetic results reach the program as the exact values the host supplied, for the exact arguments given.',
     ['inputs'], 'all host answers and all arguments', TESTS + 'the mock host returns fixed small values.', [C], [('environment wrappers', C)], STDNOTE, STD)
prop('S09', 'External calls pass exact arguments and return exact results', 'A call, delegate call or static call reaches the host with exactly the given gas, address, value and argument bytes; its result tells success from failure, the output area receives the return data that fits, and the full return data stays readable. A failing callee never ends the caller by itself.',
     ['inputs', 'fault_sequences', 'histories'], 'all gas, addresses, values, contents, lengths and call outcomes within the bounds', TESTS + 'failing callees and short return data are never exercised.', [C], [('call wrappers', C)], STDNOTE, STD)
prop('S10', 'Contract creation and code access use exact byte ranges', 'Creation hands the host exactly the value, init code, constructor data and salt given, and yields the new address, or zero on failure. Code size and code copies present the running code, followed by the constructor data while deploying and zeros beyond; constant data is copied unchanged.',
     ['inputs', 'fault_sequences'], 'all contents, offsets and lengths around every boundary', TESTS + 'copies crossing the end of code or of constructor data are not tried.', [C], [('create and codecopy wrappers', C)], STDNOTE, STD)
prop('S11', 'Logs, hashes and halting expose exactly the given bytes', 'A log event carries exactly the given memory range and topics in order; return and revert end execution with exactly the given memory range, and stop and invalid end it as the EVM does. Hashing covers exactly the given range.',
     ['inputs'], 'all contents, topics, offsets and lengths within the bounds', TESTS + 'lengths and offsets near growth boundaries are not tried.', [C], [('log, return, revert, keccak wrappers', C)], STDNOTE, STD)
prop('S12', 'Temporary words never overlap each other or the EVM memory', 'Every temporary word handed out keeps its contents until the end of the transaction, no matter how many are allocated or how the memory grows in between. The optimised free-memory pointer advances by the requested size rounded up to whole words.',
     ['histories', 'inputs'], 'allocation histories up to the stated length interleaved with memory growth, all contents and sizes', TESTS + 'several hundred allocations interleaved with growth are needed before pages are shared out again.', [C], [('bump allocator', C), ('free-memory pointer', C)], STDNOTE, STD,
     state=[('allocator buffers', 'static buffer and extra pages', C)])
prop('S13', 'The native ERC20 transfer equals the transfer it replaces', 'The built-in replacement for the standard ERC20 transfer has exactly the storage effects, log event and error data of the contract code it replaces, for every sender, recipient, amount and balance.',
     ['inputs'], 'all senders, recipients, amounts and storage contents, including self-transfers and unclean address words', TESTS + 'a few transfers between fixed clean addresses are tried.', [C], [('transfer shortcut', C)], STDNOTE, STD)

FE = 'symbolic execution of the LLVM IR that rustc emits for the Rust sources (whole program, wasm32), SMT (z3) against a reference semantics'
FENOTE = 'Every text of the stated shapes; every free character is symbolic. Counterexamples are replayed on the same functions built to WebAssembly. Trusted: rustc, the IR executor, the reference semantics, z3.'
U = 'src/yul2ir/utils.rs'
G = 'src/yul.lalrpop'
FTESTS = 'The existing tests look at two sample texts; '
prop('F01', 'Removing comments changes nothing but comments', 'Before a program is parsed its line and block comments are removed, wherever they are, and every other character is kept in order. Comment marks inside string literals are text, quotes inside comments are not, and an unfinished comment never swallows text before it.',
     ['inputs'], 'all texts within the bounds', FTESTS + 'the interplay of quotes, escapes, slashes and asterisks is a state machine over every text.', [U], [('comment removal', U)], FENOTE, FE)
prop('F02', 'String literals denote exactly the bytes Yul defines', 'A string literal\'s characters and escapes denote exactly the bytes the language defines for them, in order, with nothing lost or added.',
     ['inputs'], 'all string contents within the bounds', FTESTS + 'escapes next to quotes, backslashes and digits combine in many ways.', [U, G], [('unescaping', U), ('string token', G)], FENOTE, FE)
prop('F03', 'Embedded contracts are preceded by their exact length', 'A contract embedded in another as data is preceded by its length as a 32-bit big-endian number, followed by exactly its bytes, for every size.',
     ['inputs'], 'all contents, a range of sizes', 'No existing test looks at the prefix; only sizes with a nonzero high byte tell the byte order apart.', [U], [('length prefix', U)], FENOTE, FE)
GT = 'SMT over the terminals and productions of the parser generated from the grammar: regular-language inclusion (z3 sequences), bounded context-free inclusion by a Boolean encoding of derivability'
prop('F04', 'The lexer recognises exactly the tokens of Yul', 'Keywords, punctuation, identifiers, decimal and hexadecimal numbers, string and data literals are each read as one token of their own kind, and nothing else is. White space and separators end tokens and are otherwise ignored.',
     ['inputs'], 'all texts of every length', 'Token shapes are unbounded; keyword/identifier and number overlaps are decided by precedence rules that samples miss.', [G], [('terminals', G)], 'Exact for the stated token kinds: language inclusion in both directions, every length. Trusted: lalrpop\'s lexer construction (longest match, precedence), z3.', GT)
prop('F05', 'The parser accepts exactly the programs of the Yul grammar', 'Every text that the language\'s grammar derives is accepted, including every statement form, nesting and list length, and every text that it does not derive is rejected with an error.',
     ['inputs'], 'all token sequences within the bounds', 'The forms combine; a missing or loosened alternative shows only for particular sequences.', [G], [('productions', G)], 'All token sequences of the stated shapes and lengths, inclusion in both directions against the grammar of the Yul specification. Trusted: lalrpop\'s parser generation, z3.', GT)

prop('F06', 'The syntax tree has exactly the program\'s parts, in order', 'The tree the parser builds for a program contains every statement, expression, name, number, string, parameter, case and embedded object of the program exactly once, in its own role and in the program\'s order.',
     ['inputs'], 'all token sequences within the bounds and all names and literals of the given lengths', 'No existing test builds a tree; swapped parts of a loop or reversed arguments only show for programs in which they differ.', [G, 'src/yul2ir/ast.rs'], [('parser actions', G), ('tree', 'src/yul2ir/ast.rs')],
     'The generated LR parser and all its actions, executed symbolically on token sequences with symbolic kinds and characters. Counterexamples are replayed on the same parser built to WebAssembly. Trusted: the token source and the regex stand-in, rustc, the IR executor, the reference parser, z3.', FE)


TE = 'translation validation: symbolic execution of the LLVM IR the real compiler emits for Yul programs (linked with the real standard library), SMT (z3, cvc5 cross-check) against a reference interpreter of the Yul source'
TNOTE = 'Every value of the inputs and of the environment for each listed program; the programs are a fixed set, chosen so that every construct meets every representation of its operands. Counterexamples are replayed on the emitted WebAssembly. Trusted: the IR executor, the host model, the reference interpreter, LLVM\'s WebAssembly back end, z3.'
I = 'src/yul2ir/instruction.rs'
TR = 'src/yul2ir/transform.rs'
CT = 'src/yul2ir/context.rs'
VR = 'src/yul2ir/var_scope.rs'
IH = 'src/yul2ir/infer.rs'
TTESTS = 'No existing reliable test compiles a program; '

prop('T01', 'Compiled arithmetic gives the EVM result for every operand', 'In a compiled program every arithmetic, comparison, shift and bitwise instruction gives the EVM result modulo 2^256, for all operand values. It does not matter where the operands come from (calldata, storage, the environment, constants, variables, other instructions), and division by zero, overlong shifts and overflows are as in the EVM.',
     ['inputs'], 'all values of both operands, for each instruction and each pair of operand sources', TTESTS + 'a wrong width or sign shows for some operands from some sources only.', [I, TR], [('instruction translation', I), ('integer widths', IH)], TNOTE, TE)
prop('T02', 'Compiled control flow follows the source on every input', 'Conditionals, switches, loops, break, continue, early exits and block scopes of a compiled program take exactly the branch the source takes, for every value of their conditions and cases. Variables hold the last value assigned to them, whatever they held before.',
     ['inputs', 'histories'], 'all values of conditions, cases and variables for each program form; loops up to the statement limit', TTESTS + 'branches chosen by wide values, and variables that change representation, are not sampled.', [TR], [('statement translation', TR), ('variables', VR)], TNOTE, TE)
prop('T03', 'Compiled functions receive and return exact values', 'Functions of a compiled program receive the values they are given, return what they assigned (zero where nothing is), may recurse, leave early, and end the program when they revert. Arguments are evaluated from the last to the first; names never change the meaning, and functions that differ in behaviour are never confused.',
     ['inputs', 'histories'], 'all argument values for each program form, recursion up to the statement limit', TTESTS + 'results that are unassigned on some paths and functions that look alike need particular programs and values.', [TR, 'src/yul2ir/function_deduplicator.rs'], [('functions and calls', TR), ('function deduplication', 'src/yul2ir/function_deduplicator.rs')], TNOTE, TE)
prop('T04', 'Compiled memory, calldata, code and storage accesses are exact', 'Memory, calldata, code, transient and permanent storage accesses and hashes of a compiled program touch exactly the bytes and slots the EVM does, in the order of the source, for every value stored and loaded. Reads past the end of calldata or code give zeros.',
     ['inputs', 'histories'], 'all stored values, keys and calldata for each program form; memory offsets below 2^32', TTESTS + 'a lost byte or a swapped order shows for particular values and sources.', [I, 'src/yul2ir/yul_instruction.rs'], [('memory and storage instructions', I), ('memory and storage shortcuts', I)], TNOTE, TE)
prop('T05', 'Compiled programs see and affect their environment exactly', 'Environment instructions of a compiled program give the host\'s values, logs, external calls and self-destruction reach the host with exactly the source\'s arguments, and the results, return data and failures of calls are seen as in the EVM.',
     ['inputs', 'fault_sequences'], 'all values of the environment, all call outcomes and return data up to the stated size', TTESTS + 'the mock host answers with fixed values.', [I], [('environment and call instructions', I)], TNOTE, TE)
prop('T06', 'Whole contracts behave the same under every compiler option', 'A whole contract compiled with any optimisation level, with or without inlining, size minimisation, debug mode, byte-form function results or little-endian storage produces the same storage, events, return data and failures as its source, for every calldata, state and environment.',
     ['inputs'], 'all calldata of the stated lengths, storage, environment and call results, for each contract and option', TTESTS + 'interactions of options, shortcuts and whole-contract structure only appear in compiled contracts.', [TR, CT, 'src/yul2ir/config.rs'], [('code generation', TR), ('optimisation pipeline', CT)], TNOTE, TE)
prop('T07', 'Contracts made of parts are assembled faithfully', 'Contracts that create others, embed data, link libraries or set immutables see exactly the embedded bytes, the configured addresses and the values that were set, both while deploying and afterwards. Distinct immutables never share their place.',
     ['inputs', 'histories'], 'all inputs of the deployment and of later calls, for each composition', TTESTS + 'no test deploys a contract that creates another or reads an immutable.', [I, TR], [('objects, data and immutables', I)], TNOTE, TE)

prop('T08', 'All optimisations together keep the behaviour of contracts', 'A program compiled with all optimisations at once behaves as its source on every input: the same storage, events, return data and failures as without them. This covers everything from single statements and shortcuts for standard functions and memory accesses to whole tokens and contracts made of parts.',
     ['inputs', 'histories'], 'all inputs of each program form and each whole contract; calldata up to the stated lengths', TTESTS + 'each shortcut replaces generated code by something else, which differs for particular values or surroundings only.', [I, TR, CT], [('shortcuts of single instructions', I), ('replaced functions', TR), ('shapes of code that is replaced', CT)], TNOTE, TE)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + '\n')
    na = {x['property'] for x in NOT}
    man = {'version': 1, 'setup_cmd': 'python3-vt vt/setup.py',
           'checks': [{'property': d['id'], 'quick_cmd': 'python3-vt vt/run.py %s quick' % d['id'], 'thorough_cmd': 'python3-vt vt/run.py %s thorough' % d['id'], 'technique': t, 'level': lv, 'level_note': n} for d, n, t, lv in P if d['id'] not in na],
           'not_applicable': NOT,
           'notes': 'No hooks: the checks read the LLVM IR that the repository\'s own build produces, and build the compiler and front end from copies of the sources. Known findings: known_findings.json.'}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
