"""The emitted LLVM module against the reference interpreter."""
import os
import bv, host, tv, check

OPS2 = 'add sub mul div sdiv mod smod lt gt slt sgt eq and or xor byte shl shr sar signextend'.split()


def obj(code, name='P_deployed', rest=''):
    return 'object "%s" { code { %s } %s }' % (name, code, rest)


def cd(n, **k):
    return lambda: host.Env(max_calldata=n, size=n, codesize=64, **k)


# operands in each of the forms the compiler keeps values in: 32 bytes in memory, and integers of 256, 64 and 32 bits
FORMS = {'bytes': ('calldataload(0)', 'sload(7)'), 'u256': ('callvalue()', 'basefee()'), 'i64': ('timestamp()', 'number()'), 'i32': ('extcodesize(1)', 'extcodesize(2)')}
LITS = ['0', '1', '255', '0xff', '0x80000000', '2147483648', '4294967296', '0x7fffffffffffffff', '1000000000000000000', '0x8000000000000000000000000000000000000000000000000000000000000000',
        '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '115792089237316195423570985008687907853269984665640564039457584007913129639935', '"abc"']


def stores(exprs):
    return ' '.join('sstore(%d, %s)' % (k, e) for k, e in enumerate(exprs))


def T01(ck):
    ck.bounds = ['every value of both operands; operands held as 32 bytes, as integers of 256, 64 and 32 bits, and as literals, in every combination of two forms']
    forms = list(FORMS)
    for op in OPS2:
        for a in forms:
            tv.case(ck, '%s of %s' % (op, a), obj(stores('%s(%s, %s)' % (op, FORMS[a][0], FORMS[b][1]) for b in forms)), env=cd(32))
    for op in OPS2:
        for k in range(0, len(LITS), 5):
            ls = LITS[k:k + 5]
            tv.case(ck, '%s with %s' % (op, ' '.join(ls)), obj(stores([e for l in ls for e in ('%s(calldataload(0), %s)' % (op, l), '%s(%s, callvalue())' % (op, l), '%s(timestamp(), %s)' % (op, l))])), env=cd(32), opts={'plain': {}})
        tv.case(ck, '%s of variables' % op, obj('function f(x, y) -> r { r := %s(x, y) } let a := calldataload(0) let b := callvalue() let c := timestamp() let d := extcodesize(3) ' % op + stores(
            '%s(%s, %s)' % (g, x, y) for g in (op, 'f') for x, y in ('ab', 'bc', 'ca', 'da', 'cd'))), env=cd(32), opts={'plain': {}})
    for op in ('div', 'sdiv', 'mod', 'smod'):
        tv.case(ck, op + ' by powers of two', obj(stores('%s(%s, %s)' % (op, x, y) for x in ('calldataload(0)', 'callvalue()', 'timestamp()') for y in ('2', '256', '18446744073709551616', '0x80', 'not(1)', '0xf' + 'f' * 62 + '0'))), env=cd(32))
    one = [x for f in forms for x in FORMS[f][:1]] + ['lt(calldataload(0), 5)', 'keccak256(0, 4)', 'address()', 'add(callvalue(), 1)']
    for op in 'not iszero'.split():
        tv.case(ck, op, obj(stores('%s(%s)' % (op, x) for x in one + LITS)), env=cd(32))
    for op in 'addmod mulmod'.split():
        tv.case(ck, op, obj(stores('%s(%s, %s, %s)' % (op, x, y, z) for x, y, z in zip(one, one[1:] + one[:1], one[3:] + one[:3]))), env=cd(32))
    tv.case(ck, 'exp', obj(stores('exp(%s, %s)' % (x, y) for x in one[:4] for y in ('0', '1', '2', '3', '0x100', '257'))), env=cd(32))
    tv.case(ck, 'nested', obj(stores(['add(mul(calldataload(0), 3), sub(callvalue(), not(0)))', 'and(or(calldataload(0), timestamp()), xor(callvalue(), shl(5, number())))', 'iszero(iszero(calldataload(0)))',
                                      'sub(lt(callvalue(), 3), eq(timestamp(), 4))', 'mul(iszero(calldataload(0)), not(0))', 'add(add(extcodesize(1), extcodesize(2)), extcodesize(3))', 'sub(0, 1)', 'add(not(0), 2)', 'sub(extcodesize(1), timestamp())',
                                      'shr(224, calldataload(0))', 'shl(224, shr(224, calldataload(0)))', 'and(calldataload(0), sub(shl(160, 1), 1))'])), env=cd(32))
    tv.case(ck, 'calldata size less four', obj(stores(['add(calldatasize(), not(3))', 'slt(add(calldatasize(), not(3)), 32)', 'lt(add(calldatasize(), not(3)), 32)', 'sgt(add(calldatasize(), not(3)), 0)', 'shr(4, add(calldatasize(), not(3)))'])), env=lambda: host.Env(max_calldata=40))
    tv.case(ck, 'constant shifts', obj(stores('shl(%s, %s)' % (a, b) for a in ('0', '1', '31', '32', '96', '224', '0xff', '256', '2147483646') for b in ('0', '1', '0x7ffffffe', '0x08c379a0', '2147483648', 'true', '0x4e487b71'))), env=cd(0))


# ------------------------------------------------------------ T02
CONDS = ['calldataload(0)', 'callvalue()', 'timestamp()', 'extcodesize(1)', 'lt(calldataload(0), 9)', 'iszero(callvalue())', 'true', 'false', '0', '1', 'shl(255, calldataload(0))', '0x100000000', '18446744073709551616', 'mload(0)', 'sload(3)', 'f(calldataload(0))',
         'and(calldataload(0), 0xff)', 'eq(sload(1), callvalue())', 'returndatasize()', '"a"', 'address()']


def T02(ck):
    ck.bounds = ['every value the programs read; at most 2000 statements']
    pre = 'function f(x) -> r { r := x } mstore(0, callvalue()) '
    for k in range(0, len(CONDS), 1):
        c = CONDS[k]
        tv.case(ck, 'if ' + c, obj(pre + 'if %s { sstore(1, 1) } sstore(2, 2)' % c), env=cd(32))
        tv.case(ck, 'for ' + c, obj(pre + 'for { let i := 0 } %s { i := add(i, 1) } { sstore(i, 1) break } sstore(2, 2)' % c), env=cd(32))
        tv.case(ck, 'switch ' + c, obj(pre + 'switch %s case 0 { sstore(1, 1) } case 5 { sstore(1, 2) } case 0x7b { sstore(1, 3) } default { sstore(1, 4) } sstore(2, 2)' % c), env=cd(32))
    BIG = ['4294967296', '4294967297', '0x100000001', '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '"ab"', '18446744073709551617', '999999999999', '1000000000']
    for c in ('calldataload(0)', 'timestamp()', 'lt(calldataload(0), 9)', 'calldatasize()', 'shr(224, calldataload(0))', 'callvalue()'):
        for l in BIG:
            tv.case(ck, 'switch %s case %s' % (c, l), obj('switch %s case 1 { sstore(1, 1) } case %s { sstore(1, 2) } default { sstore(1, 3) }' % (c, l)), env=cd(32), opts={'plain': {}})
    P = {
        'switch without default': 'switch calldataload(0) case 1 { sstore(1, 1) } case 2 { sstore(1, 2) } sstore(2, 2)',
        'switch with default only': 'switch calldataload(0) default { sstore(1, 1) } sstore(2, 2)',
        'switch in switch': 'switch calldataload(0) case 1 { switch callvalue() case 0 { sstore(1, 1) } default { sstore(1, 2) } } default { switch timestamp() case 7 { sstore(1, 3) } sstore(1, 4) }',
        'switch on a string': 'switch calldataload(0) case "abc" { sstore(1, 1) } case "" { sstore(1, 2) } default { sstore(1, 3) }',
        'switch on booleans': 'switch lt(calldataload(0), 4) case true { sstore(1, 1) } case false { sstore(1, 2) }',
        'switch with the same names in its arms': 'switch calldataload(0) case 1 { let x := 1 sstore(x, x) } case 2 { let x := 2 sstore(x, x) } default { let x := callvalue() sstore(x, x) }',
        'if with the same name twice': 'if calldataload(0) { let x := 1 sstore(x, x) } if callvalue() { let x := 2 sstore(x, x) } let x := 3 sstore(x, x)',
        'blocks with the same name': '{ let x := 1 sstore(x, x) } { let x := calldataload(0) sstore(x, x) } let x := 3 sstore(x, x)',
        'for twice with the same name': 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { let y := i sstore(y, i) } for { let i := 5 } lt(i, 7) { i := add(i, 1) } { let y := i sstore(y, i) }',
        'for with continue and break': 'for { let i := 0 } lt(i, 6) { i := add(i, 1) } { if eq(i, and(calldataload(0), 7)) { continue } if eq(i, callvalue()) { break } sstore(i, 1) } sstore(9, 9)',
        'nested for': 'let s := 0 for { let i := 0 } lt(i, 3) { i := add(i, 1) } { for { let j := i } lt(j, 3) { j := add(j, 1) } { if eq(j, callvalue()) { continue } if eq(i, calldataload(0)) { break } s := add(s, mul(i, j)) } } sstore(0, s)',
        'for with break in a switch': 'for { let i := 0 } lt(i, 4) { i := add(i, 1) } { switch calldataload(mul(i, 32)) case 0 { continue } case 1 { break } default { sstore(i, i) } sstore(add(i, 10), 1) } sstore(9, 9)',
        'for without a condition to end it': 'let i := 0 for { } 1 { } { i := add(i, 1) if gt(i, and(callvalue(), 3)) { break } } sstore(0, i)',
        'for over a counter going down': 'for { let i := and(callvalue(), 3) } i { i := sub(i, 1) } { sstore(i, i) }',
        'accumulating loop': 'let s := 0 for { let i := 0 } lt(i, 4) { i := add(i, 1) } { s := add(s, calldataload(mul(i, 32))) } sstore(0, s)',
        'loop keeping the previous value': 'let p := 0 let x := calldataload(0) for { let i := 1 } lt(i, 4) { i := add(i, 1) } { p := x x := calldataload(mul(i, 32)) sstore(i, xor(p, x)) } sstore(0, p)',
        'loop keeping the previous storage value': 'let p := sload(0) for { let i := 1 } lt(i, 4) { i := add(i, 1) } { let t := sload(i) sstore(add(i, 100), sub(t, p)) p := t } sstore(0, p)',
        'assignment of a wider value': 'let x := calldatasize() sstore(0, x) x := calldataload(0) sstore(1, x) let y := timestamp() sstore(2, y) y := not(0) sstore(3, y) let z := lt(x, y) z := callvalue() sstore(4, z)',
        'assignment of a wider value in a branch': 'let x := iszero(callvalue()) if x { x := calldataload(0) } sstore(0, x)',
        'a boolean variable': 'let x := true sstore(0, x) x := 2 sstore(1, x) let y := false sstore(2, y) y := calldataload(0) sstore(3, y)',
        'variables without a value': 'let x sstore(0, x) let a, b sstore(1, a) sstore(2, b) x := 5 sstore(3, x) if callvalue() { let c sstore(4, c) c := 9 sstore(5, c) }',
        'variables without a value in a loop': 'for { let i := 0 } lt(i, 2) { i := add(i, 1) } { let x sstore(i, x) x := add(i, 7) sstore(add(i, 10), x) }',
        'copies of variables': 'let x := calldataload(0) let y := x x := callvalue() sstore(0, x) sstore(1, y) y := add(y, 1) let z := y y := sload(3) sstore(2, y) sstore(3, z) x := y y := 1 sstore(4, x) sstore(5, y)',
        'exchanging variables': 'let x := calldataload(0) let y := sload(1) let t := x x := y y := t sstore(0, x) sstore(1, y)',
        'early stop': 'sstore(0, 1) if calldataload(0) { stop() } sstore(0, 2)',
        'early return': 'mstore(0, calldataload(0)) if callvalue() { return(0, 32) } mstore(0, 7) return(0, 32)',
        'early revert': 'mstore(0, calldataload(0)) if callvalue() { revert(0, 32) } sstore(0, 1)',
        'invalid': 'if callvalue() { invalid() } sstore(0, 1)',
        'statements after an end': 'sstore(0, 1) return(0, 0) sstore(0, 2)',
        'deep nesting': 'if calldataload(0) { if callvalue() { for { let i := 0 } lt(i, 2) { i := add(i, 1) } { { if timestamp() { switch i case 0 { sstore(0, i) } default { sstore(1, i) } } } } } }',
    }
    for n, code in P.items():
        tv.case(ck, n, obj(code), env=cd(128))


# ------------------------------------------------------------ T03
def T03(ck):
    ck.bounds = ['every value the programs read; at most 2000 statements']
    P = {
        'a result nobody assigns': 'function f(x) -> r { if x { r := 7 } } sstore(0, f(calldataload(0))) sstore(1, f(0)) sstore(2, f(callvalue()))',
        'two results nobody assigns': 'function f(x) -> a, b { if x { a := 7 } if gt(x, 4) { b := x } } let p, q := f(calldataload(0)) sstore(0, p) sstore(1, q)',
        'a call without results': 'function f(x) { sstore(x, 1) } f(calldataload(0)) f(3)',
        'a call that ignores a result': 'function f(x) -> r { sstore(x, 1) r := 5 } pop(f(calldataload(0)))',
        'three results': 'function f(x, y) -> a, b, c { a := add(x, y) b := sub(x, y) c := lt(x, y) } let p, q, r := f(calldataload(0), callvalue()) sstore(0, p) sstore(1, q) sstore(2, r) p, q, r := f(timestamp(), 3) sstore(3, p) sstore(4, q) sstore(5, r)',
        'exchange through a call': 'function f(x, y) -> a, b { a := y b := x } let p, q := f(calldataload(0), callvalue()) p, q := f(p, q) sstore(0, p) p, q := f(q, p) sstore(1, q)',
        'results into narrow variables': 'function f(x, y) -> a, b { a := y b := x } let p := calldatasize() let q := true p, q := f(calldataload(0), callvalue()) sstore(0, p) sstore(1, q)',
        'leave': 'function f(x) -> r { r := 1 if lt(x, 5) { leave } r := 2 if gt(x, 100) { r := 3 leave } r := add(r, x) } sstore(0, f(calldataload(0)))',
        'leave in a loop': 'function f(x) -> r { for { let i := 0 } lt(i, 4) { i := add(i, 1) } { if eq(i, x) { leave } r := add(r, 10) } r := 1 } sstore(0, f(calldataload(0)))',
        'leave in a switch': 'function f(x) -> r { switch x case 1 { r := 5 leave } case 2 { r := 6 } default { leave } r := add(r, 1) } sstore(0, f(calldataload(0)))',
        'leave at the end': 'function f(x) -> r { r := x leave } function g(x) { sstore(x, 1) leave } sstore(0, f(calldataload(0))) g(9)',
        'recursion': 'function f(x) -> r { switch x case 0 { r := 1 } default { r := mul(x, f(sub(x, 1))) } } sstore(0, f(and(calldataload(0), 7)))',
        'mutual recursion': 'function e(x) -> r { switch x case 0 { r := 1 } default { r := o(sub(x, 1)) } } function o(x) -> r { switch x case 0 { r := 0 } default { r := e(sub(x, 1)) } } sstore(0, e(and(calldataload(0), 7)))',
        'recursion with locals': 'function fib(n) -> r { if lt(n, 2) { r := n leave } let a := fib(sub(n, 1)) let b := fib(sub(n, 2)) r := add(a, b) } sstore(0, fib(and(callvalue(), 3)))',
        'a parameter that is assigned': 'function f(x) -> r { let y := x x := add(x, 1) r := mul(x, y) } let v := calldataload(0) sstore(0, f(v)) sstore(1, v)',
        'parameters of each form': 'function f(a, b, c, d, e) -> r { r := xor(a, xor(b, xor(c, xor(d, e)))) } sstore(0, f(calldataload(0), callvalue(), timestamp(), extcodesize(1), lt(callvalue(), 3))) sstore(1, f(0x1000000000, true, "abc", 7, not(0)))',
        'a result that is copied': 'function f(x) -> r { r := x let y := r r := add(r, 1) sstore(7, y) } sstore(0, f(calldataload(0))) sstore(1, f(sload(2)))',
        'a result that is reused': 'function f(x) -> r { r := x } let a := f(calldataload(0)) let b := f(callvalue()) sstore(0, a) sstore(1, b) a := f(b) b := f(3) sstore(2, a) sstore(3, b)',
        'nested calls': 'function f(x, y) -> r { r := sub(x, mul(2, y)) } sstore(0, f(f(calldataload(0), 1), f(callvalue(), f(3, timestamp()))))',
        'calls in conditions': 'function f(x) -> r { r := gt(x, 5) } if f(calldataload(0)) { sstore(0, 1) } switch f(callvalue()) case 1 { sstore(1, 1) } default { sstore(1, 2) } for { let i := 0 } f(sub(8, i)) { i := add(i, 1) } { sstore(i, i) }',
        'used before it is defined': 'sstore(0, g(calldataload(0))) function g(x) -> r { r := h(x) } function h(x) -> r { r := add(x, 1) }',
        'names with dots and dollars': 'function f.g$1(x_) -> r$ { let a.b := x_ r$ := add(a.b, 1) } let $x := calldataload(0) let _1 := f.g$1($x) sstore(0, _1)',
        'the same local names everywhere': 'function f(x) -> r { let t := add(x, 1) r := t } function g(x) -> r { let t := mul(x, 2) r := f(t) } let t := calldataload(0) let x := g(t) let r := f(x) sstore(t, x) sstore(x, r)',
        'a function named like an object': 'function P_deployed(x) -> r { r := x } sstore(0, P_deployed(calldataload(0)))',
        'a function named init': 'function init(x) -> r { r := add(x, 1) } sstore(0, init(calldataload(0)))',
        'functions named like library routines': 'function wrapper_add(x) -> r { r := add(x, 1) } function memcpy(x) -> r { r := mul(x, 3) } function call_(x) -> r { r := sub(x, 3) } function deploy(x) -> r { r := sub(x, 5) } function main(x) -> r { r := sub(x, 7) } sstore(0, wrapper_add(calldataload(0))) sstore(1, memcpy(callvalue())) sstore(2, deploy(main(call_(3))))',
        'equal functions': 'function f(x) -> r { r := add(x, 1) } function g(x) -> r { r := add(x, 1) } function h(x) -> r { r := add(x, 2) } sstore(0, f(calldataload(0))) sstore(1, g(callvalue())) sstore(2, h(callvalue()))',
        'equal functions up to names': 'function f(x, y) -> r { r := sub(x, y) } function g(y, x) -> r { r := sub(y, x) } function h(y, x) -> r { r := sub(x, y) } sstore(0, f(calldataload(0), 5)) sstore(1, g(calldataload(0), 6)) sstore(2, h(calldataload(0), 7))',
        'equal functions that call others': 'function a(x) -> r { r := 1 } function b(x) -> r { r := 2 } function f(x) -> r { r := a(x) } function g(x) -> r { r := b(x) } sstore(0, f(1)) sstore(1, g(1))',
        'a function that only reverts': 'function revert_error_1() { revert(0, 0) } function revert_error_2() { revert(0, 0) } if calldataload(0) { revert_error_1() } if callvalue() { revert_error_2() } sstore(0, 1)',
        'a function that only reverts with arguments': 'function r1(a) { revert(0, 0) } sstore(0, 1) if calldataload(0) { r1(calldataload(0)) } sstore(1, 1)',
        'a function that only reverts with a result': 'function r1(a) -> b { revert(0, 0) } sstore(0, 1) if calldataload(0) { sstore(2, r1(calldataload(0))) } sstore(1, 1)',
        'a function that only reverts with two results': 'function r1(a) -> b, c { revert(0, 0) } sstore(0, 1) if calldataload(0) { let x, y := r1(calldataload(0)) sstore(2, x) } sstore(1, 1)',
        'a revert with data': 'function r1() { mstore(0, shl(224, 0x4e487b71)) mstore(4, 0x11) revert(0, 0x24) } if calldataload(0) { r1() } sstore(0, 1)',
        'typed names': 'function f(x: u256, y: u256) -> r: u256, q: u256 { r := add(x, y) q := sub(x, y) } let a: u256 := calldataload(0) let b: u256 sstore(0, b) let c: u256, d: u256 := f(a, callvalue()) b := timestamp() sstore(1, c) sstore(2, d) sstore(3, b)',
        'functions named like transfers': 'function fun_transfer(a, b, v) { if iszero(a) { sstore(0, 1) } if iszero(and(b, sub(shl(160, 1), 1))) { sstore(1, a) } if iszero(v) { sstore(2, b) } sstore(3, v) a := add(a, v) sstore(4, a) mstore(0, b) sstore(5, keccak256(0, 32)) } fun_transfer(calldataload(0), calldataload(32), callvalue()) fun_transfer(caller(), timestamp(), lt(callvalue(), 3)) fun_transfer(1, 0, 5)',
        'functions named like transfers, with results': 'function fun__transfer_12(a, b, v) -> r { r := iszero(a) if iszero(r) { r := sub(a, b) leave } r := v } sstore(0, fun__transfer_12(calldataload(0), calldataload(32), callvalue())) function fun_transferFrom(a, b, v) -> r { r := fun__transfer_12(b, a, iszero(v)) } sstore(1, fun_transferFrom(callvalue(), calldataload(0), 7)) sstore(2, fun_transferFrom(extcodesize(1), timestamp(), calldataload(0)))',
        'functions named like decoders': 'function abi_decode_address(o) -> value { value := calldataload(o) if iszero(eq(value, and(value, sub(shl(160, 1), 1)))) { revert(0, 0) } } function abi_decode_t_address(o, e) -> v { v := and(calldataload(o), sub(shl(160, 1), 1)) if iszero(v) { v := and(timestamp(), not(1)) } let m := and(callvalue(), 0xff) sstore(7, m) sstore(8, and(m, calldataload(0))) } sstore(0, abi_decode_address(0)) sstore(1, abi_decode_t_address(32, 0))',
        'functions named like other parts': 'function abi_encode_address(p, v) -> r { mstore(p, and(v, sub(shl(160, 1), 1))) r := add(p, 32) } function cleanup_t_address(v) -> r { r := and(v, 0xffffffffffffffffffffffffffffffffffffffff) } function checked_add_t_uint256(x, y) -> s { s := add(x, y) if gt(x, s) { mstore(0, shl(224, 0x4e487b71)) mstore(4, 0x11) revert(0, 0x24) } } function allocate_unbounded() -> p { p := mload(64) } mstore(64, 128) sstore(0, abi_encode_address(allocate_unbounded(), calldataload(0))) sstore(1, cleanup_t_address(calldataload(32))) sstore(2, checked_add_t_uint256(calldataload(0), callvalue())) sstore(3, mload(128))',
        'a revert of memory at zero': 'function r1() { revert(0, 4) } function r2() { revert(0x00, 0x00) } mstore(0, not(0)) if calldataload(0) { r1() } r2()',
    }
    for n, code in P.items():
        tv.case(ck, n, obj(code), env=cd(64))
    # the order of arguments: from the last to the first
    O = {
        'builtin': 'sstore(0, sub(f(1), f(2)))', 'three': 'sstore(0, addmod(f(1), f(2), f(3)))', 'call': 'function g(a, b, c) -> r { r := add(a, mul(10, add(b, mul(10, c)))) } sstore(0, g(f(1), f(2), f(3)))',
        'store': 'mstore(f(1), f(2))', 'storage': 'sstore(f(5), f(6))', 'log': 'log2(f(1), f(2), f(3), f(4))', 'external call': 'pop(call(f(1), f(2), f(3), f(4), f(5), f(6), f(7)))', 'return': 'return(f(1), f(2))', 'nested': 'sstore(f(1), add(f(2), sub(f(3), f(4))))',
        'copy': 'calldatacopy(f(1), f(2), f(3))', 'reads': 'function g(x) -> r { r := sload(x) sstore(x, 5) } sstore(1, add(sload(8), g(8)))', 'variable': 'function g(x) -> r { r := x sstore(x, 5) } let v := calldataload(0) sstore(1, add(v, g(8)))',
    }
    for n, code in O.items():
        tv.case(ck, 'order of arguments: ' + n, obj('function f(x) -> r { sstore(99, add(mul(sload(99), 10), x)) r := x } ' + code), env=cd(64), opts={'plain': {}})


# ------------------------------------------------------------ T04
def T04(ck):
    ck.bounds = ['every value the programs read; memory offsets below 2**32 that do not depend on the input']
    VALS = ['calldataload(0)', 'callvalue()', 'timestamp()', 'extcodesize(1)', 'lt(callvalue(), 4)', 'true', '0', '1', '255', '4294967294', '4294967295', '4294967296', '18446744073709551614', '18446744073709551615', '18446744073709551616', '0xffffffff', '0x100000000', '0xffffffffffffffff', '0x10000000000000000',
            '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff', '340282366920938463463374607431768211456', '"abcdefghijklmnopqrstuvwxyz012345"', '0x123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0', '000123', '0x00000000000000000000000000000000000000000000000000000000000000ff', 'not(0)', 'shl(224, 0x08c379a0)']
    for k in range(0, len(VALS), 7):
        vs = VALS[k:k + 7]
        tv.case(ck, 'mstore of ' + ' '.join(v[:12] for v in vs), obj(' '.join('mstore(%d, %s)' % (40 * j, v) for j, v in enumerate(vs)) + ' return(0, 300)'), env=cd(32))
        tv.case(ck, 'mstore8 of ' + ' '.join(v[:12] for v in vs), obj(' '.join('mstore8(%d, %s)' % (3 * j, v) for j, v in enumerate(vs)) + ' return(0, 64)'), env=cd(32))
    OFFS = ['0', '1', '64', '0x40', '0x1f', 'x', 'add(x, 5)', 'mload(64)', 'mul(x, 2)', 'msize()', 'and(callvalue(), 0)']
    for o in OFFS:
        tv.case(ck, 'memory at ' + o, obj('let x := 33 mstore(64, 128) mstore(%s, calldataload(0)) mstore8(%s, callvalue()) let y := mload(%s) sstore(0, y) sstore(1, add(mload(%s), 1)) sstore(2, mload(add(1, %s))) return(0, 256)' % (o, o, o, o, o)), env=cd(32))
    U = {
        'mload in each place': 'mstore(0, calldataload(0)) mstore(32, mload(0)) sstore(mload(0), mload(5)) sstore(1, add(mload(0), mload(1))) sstore(2, eq(mload(0), mload(32))) sstore(3, byte(0, mload(0))) sstore(4, shr(8, mload(0))) let x := mload(3) sstore(5, x) x := mload(4) sstore(6, x) let y := 5 y := mload(6) sstore(7, y) let z := calldatasize() z := mload(6) sstore(8, z)',
        'mload in conditions': 'mstore(0, calldataload(0)) if mload(0) { sstore(0, 1) } for { let i := 0 } mload(0) { i := add(i, 1) } { sstore(1, 1) break } switch mload(0) case 5 { sstore(2, 1) } default { sstore(2, 2) }',
        'mload as an argument': 'function f(x) -> r { r := x } mstore(0, calldataload(0)) sstore(0, f(mload(0))) log1(0, 32, mload(0)) mstore(64, 3) mstore8(mload(64), mload(0)) sstore(1, mload(0))',
        'overlapping stores': 'mstore(0, calldataload(0)) mstore(10, callvalue()) mstore8(12, timestamp()) mstore(33, 0x1234) return(0, 96)',
        'mcopy': 'mstore(0, calldataload(0)) mcopy(10, 0, 32) mcopy(0, 5, 40) mcopy(100, 200, 0) sstore(0, msize()) return(0, 96)',
        'msize': 'sstore(0, msize()) mstore(0, 1) sstore(1, msize()) pop(mload(100)) sstore(2, msize()) mstore8(300, 1) sstore(3, msize())',
        'keccak256': 'mstore(0, calldataload(0)) mstore(32, callvalue()) sstore(keccak256(0, 64), keccak256(5, 10)) sstore(0, keccak256(0, 0)) let h := keccak256(0, 32) mstore(0, h) sstore(1, keccak256(0, 64))',
        'nested mappings': 'function slot(k, p) -> r { mstore(0, k) mstore(32, p) r := keccak256(0, 64) } let s := slot(calldataload(0), slot(callvalue(), 3)) sstore(s, add(sload(s), 1)) sstore(add(s, 1), timestamp())',
        'calldatacopy': 'calldatacopy(5, 3, 40) calldatacopy(0, 30, 4) calldatacopy(50, 60, 20) return(0, 96)',
        'calldatacopy past the end': 'mstore(0, not(0)) mstore(32, not(0)) calldatacopy(0, 60, 20) calldatacopy(32, 1000, 8) calldatacopy(41, not(0), 8) return(0, 64)',
        'calldatacopy of everything': 'calldatacopy(0, 0, calldatasize()) return(0, calldatasize())',
        'calldataload at its limits': 'sstore(0, calldataload(1)) sstore(1, calldataload(33)) sstore(2, calldataload(63)) sstore(3, calldataload(64)) sstore(4, calldataload(100000))',
        'calldataload far out': 'sstore(0, calldataload(4294967295)) sstore(1, calldataload(4294967296)) sstore(2, calldataload(not(0))) sstore(3, calldataload(0x100000000)) sstore(4, calldataload(2147483648))',
        'codecopy': 'codecopy(0, 0, 32) codecopy(40, 60, 8) sstore(0, codesize()) return(0, 64)',
        'codesize': 'sstore(codesize(), add(codesize(), 1))',
        'extcodecopy': 'extcodecopy(calldataload(0), 0, 0, 32) extcodecopy(address(), 40, 1, 8) return(0, 64)',
        'free memory pointer': 'mstore(64, 128) let p := mload(64) mstore(p, calldataload(0)) mstore(64, add(p, 32)) let q := mload(64) mstore(q, callvalue()) mstore(0x40, add(q, 0x20)) sstore(0, mload(64)) log0(p, 64) return(p, sub(mload(0x40), p))',
        'memory guard': 'mstore(64, memoryguard(128)) let p := mload(64) sstore(0, p) mstore(p, callvalue()) return(p, 32)',
        'returndatasize before a call': 'sstore(0, returndatasize()) returndatacopy(0, 0, 0)',
        'returns of nothing': 'mstore(0, 1) return(0, 0)', 'return of a large offset': 'mstore(1000, calldataload(0)) return(1000, 32)', 'reverts of nothing': 'mstore(0, 1) revert(0, 0)',
        'storage keys': 'sstore(0, 1) sstore(0x00, 2) sstore("", 3) sstore(false, 4) sstore(not(0), 5) sstore(calldataload(0), callvalue()) sstore(timestamp(), 7) sstore(extcodesize(1), 8) sstore(0x100000000, sload(0)) sstore(18446744073709551616, sload(calldataload(0))) sstore(5, sload(0x00)) sstore(6, sload(not(0))) sstore(7, sload(timestamp()))',
        'transient storage': 'tstore(0, calldataload(0)) tstore(calldataload(0), 3) tstore(0x00, callvalue()) sstore(0, tload(0)) sstore(1, tload(calldataload(0))) sstore(2, tload(timestamp()))',
        'storage packing': 'let s := sload(0) sstore(0, or(and(s, not(sub(shl(160, 1), 1))), and(calldataload(0), sub(shl(160, 1), 1)))) sstore(1, and(shr(160, sload(0)), 0xff)) sstore(0, or(and(sload(0), not(shl(160, 255))), shl(160, and(callvalue(), 0xff))))',
    }
    for n, code in U.items():
        tv.case(ck, n, obj(code), env=cd(64))
    for n in (0, 3, 36):
        tv.case(ck, 'copies of %d bytes of calldata' % n, obj('calldatacopy(0, 0, calldatasize()) sstore(0, calldatasize()) sstore(1, calldataload(0)) sstore(2, shr(224, calldataload(0))) log0(0, 64) if iszero(lt(calldatasize(), 4)) { return(0, 4) }'), env=cd(n))


# ------------------------------------------------------------ T05
def T05(ck):
    ck.bounds = ['every value of the environment; results of external calls of up to 64 bytes, every status']
    W = 'address caller origin coinbase callvalue gasprice basefee blobbasefee chainid prevrandao difficulty timestamp number gaslimit selfbalance gas'.split()
    for w in W:
        tv.case(ck, w, obj('sstore(0, %s()) sstore(1, add(%s(), 1)) sstore(2, lt(%s(), calldataload(0))) mstore(0, %s()) let x := %s() sstore(3, x) x := not(x) sstore(4, x) if eq(%s(), 5) { sstore(5, 1) } return(0, 32)' % ((w,) * 6) if w != 'gas' else 'let g := gas() sstore(0, g) sstore(1, add(gas(), 1))'), env=cd(32))
    E = {
        'balance': 'sstore(0, balance(calldataload(0))) sstore(1, balance(address())) sstore(2, balance(callvalue())) sstore(3, balance(5))',
        'extcodesize and extcodehash': 'sstore(0, extcodesize(calldataload(0))) sstore(1, extcodehash(calldataload(0))) sstore(2, extcodehash(caller())) sstore(3, extcodehash(callvalue())) if iszero(extcodesize(address())) { sstore(4, 1) }',
        'blockhash': 'sstore(0, blockhash(5)) sstore(1, blockhash(sub(number(), 1))) sstore(2, blockhash(timestamp()))',
        'blockhash of a word': 'sstore(0, blockhash(calldataload(0)))',
        'logs': 'mstore(0, calldataload(0)) log0(0, 32) log1(1, 5, calldataload(0)) log2(0, 32, callvalue(), timestamp()) log3(0, 0, 1, lt(callvalue(), 3), 0x1234567890) log4(4, 8, "abc", not(0), caller(), keccak256(0, 32))',
        'selfdestruct': 'selfdestruct(calldataload(0))', 'selfdestruct of a caller': 'if callvalue() { selfdestruct(caller()) } sstore(0, 1)',
    }
    # there is no block with the largest number
    nb = [bv.eq(host.uf('blockhash', [((1 << 64) - 1, 64)]), 0, 256)]
    for n, code in E.items():
        tv.case(ck, n, obj(code), env=cd(32), pre=nb if 'blockhash' in n else ())
    for k, v in (('call', 1), ('delegatecall', 0), ('staticcall', 0)):
        val = lambda x: x + ', ' if v else ''
        tail = 'sstore(1, returndatasize()) returndatacopy(32, 0, returndatasize()) log0(0, 64)'
        C = {
            'of constants': 'mstore(0, calldataload(0)) sstore(0, %s(50000, 0x1234567890123456789012345678901234567890, %s0, 4, 0, 32)) %s' % (k, val('0'), tail),
            'of words': 'mstore(0, calldataload(0)) sstore(0, %s(gas(), calldataload(0), %s0, 36, 8, 16)) %s' % (k, val('callvalue()'), tail),
            'with all gas': 'let ok := %s(gas(), and(calldataload(0), sub(shl(160, 1), 1)), %s0, 0, 0, 0) if iszero(ok) { returndatacopy(0, 0, returndatasize()) revert(0, returndatasize()) } sstore(0, ok)' % (k, val('calldataload(0)')),
            'then again': 'pop(%s(gas(), 5, %s0, 0, 0, 0)) sstore(0, returndatasize()) let t := %s(timestamp(), caller(), %s0, 4, 4, 4) sstore(1, returndatasize()) sstore(2, t) log0(0, 32)' % (k, val('1'), k, val('3')),
            'in a condition': 'if %s(gas(), 9, %s0, 0, 0, 32) { if gt(returndatasize(), 31) { sstore(0, mload(0)) } sstore(1, 1) } switch %s(gas(), 9, %s0, 0, 0, 0) case 0 { revert(0, 0) } default { sstore(2, 2) }' % (k, val('0'), k, val('0')),
        }
        for n, code in C.items():
            tv.case(ck, '%s %s' % (k, n), obj(code), env=lambda: host.Env(max_calldata=32, size=32, codesize=64, max_ret=20, ext_status=(0, 1, 2)))
        tv.case(ck, '%s with a large amount of gas' % k, obj('sstore(0, %s(calldataload(0), 9, %s0, 0, 0, 0))' % (k, val('0'))), env=lambda: host.Env(max_calldata=32, size=32, codesize=64, max_ret=0))
    tv.case(ck, 'returndatacopy past the end', obj('pop(staticcall(gas(), 4, 0, 0, 0, 0)) returndatacopy(0, 8, 8) sstore(0, mload(0))'), env=lambda: host.Env(max_calldata=0, size=0, codesize=64, max_ret=32))


# ------------------------------------------------------------ T06
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'progs')


def prog(n):
    return open(os.path.join(HERE, n + '.yul')).read()


OPTIONS = {
    'plain': {}, 'less': {'opt_level': 'less'}, 'default': {'opt_level': 'default'}, 'aggressive': {'opt_level': 'aggressive'}, 'no inlining': {'opt_level': 'aggressive', 'no_inline': True}, 'small': {'opt_level': 'default', 'minify_wasm_size': True},
    'no passes': {'disable_all_optimizers': True}, 'debug': {'debug_mode': True}, 'byte results': {'ret': 'bytes32', 'opt_level': 'aggressive'}, 'byte results plain': {'ret': 'bytes32'}, 'little-endian storage': {'little_endian_storage': True},
    'little-endian storage, aggressive': {'little_endian_storage': True, 'opt_level': 'aggressive'},
}
WHOLE = {'token': ('Token_1_deployed', (4, 36, 68, 100), ()), 'vault': ('Vault_2_deployed', (0, 4, 36), ()), 'strings': ('S_3_deployed', (36,), ()), 'arrays': ('A_4_deployed', (68, 100), (132,)), 'compute': ('C_5_deployed', (68,), ())}
QUICK = ('plain', 'aggressive', 'small', 'no passes', 'byte results', 'little-endian storage, aggressive')


def T06(ck):
    ck.bounds = ['every value the contracts read, including all calldata of the stated lengths; returned data of up to 8 bytes (thorough: 32); at most 2000 statements']
    deep = ck.tier == 'thorough'
    opts = OPTIONS if deep else {k: OPTIONS[k] for k in QUICK}
    for n, (main, sizes, more) in WHOLE.items():
        for k in sizes + more * deep:
            tv.case(ck, '%s, calldata of %d bytes' % (n, k), prog(n), env=lambda k=k: host.Env(max_calldata=k, size=k, codesize=64, max_ret=32 if deep else 8, ext_status=(0, 1, 2)), main=main, opts=opts)
    for k in (0, 31, 32):
        tv.case(ck, 'token, deployed with %d bytes' % k, prog('token'), env=lambda k=k: host.Env(max_calldata=k, size=k, codesize=64), main='Token_1', opts=opts)
    for n in SMALL:
        tv.case(ck, n, obj(SMALL[n]), env=cd(64), opts=OPTIONS)


SMALL = {
    'results of calls in every place': 'function f(x) -> r { r := add(x, 1) } function g(x) -> r { r := x } function h(x) -> a, b { a := f(x) b := g(x) } let v := f(calldataload(0)) let w := g(v) v := f(w) sstore(v, w) let p, q := h(callvalue()) p, q := h(add(p, q)) mstore(0, g(p)) mstore(g(32), q) sstore(g(1), f(f(g(p)))) if g(q) { log1(0, 64, g(v)) } switch g(w) case 5 { revert(0, 32) } default { return(0, 64) }',
    'results that are kept': 'function f(x) -> r { r := x } function g(a, b) -> r { r := sub(a, b) } let a := f(calldataload(0)) let b := f(calldataload(32)) let c := g(f(1), f(callvalue())) sstore(0, a) sstore(1, b) sstore(2, c) sstore(3, g(a, b))',
    'recursive results': 'function f(n) -> r { switch n case 0 { r := callvalue() } default { let a := f(sub(n, 1)) let b := f(sub(n, 1)) r := add(mul(a, 3), b) } } sstore(0, f(3))',
    'results in loops': 'function f(x) -> r { r := add(x, 3) } let s := 1 for { let i := 0 } lt(i, 3) { i := f(i) } { s := add(f(s), f(i)) } sstore(0, s) function k(i) -> r { r := sload(i) } let t := k(1) for { let i := 2 } lt(i, 4) { i := add(i, 1) } { let u := k(i) t := sub(u, t) } sstore(5, t)',
    'storage in every place': 'sstore(0, sload(1)) sstore(2, add(sload(3), 1)) let x := sload(4) sstore(5, x) x := sload(6) sstore(7, not(x)) if sload(8) { sstore(9, iszero(sload(10))) } sstore(sload(11), sload(sload(12))) mstore(0, sload(13)) mstore8(32, sload(14)) return(0, 33)',
    'storage in other places': 'switch sload(15) case 1 { stop() } tstore(1, sload(16)) sstore(17, tload(2)) log1(0, 33, sload(18)) function f(a) -> r { r := a } sstore(19, f(sload(20))) sstore(21, lt(sload(22), sload(23))) sstore(24, lt(callvalue(), 4)) sstore(25, timestamp()) sstore(26, true) sstore(27, "abc") sstore(28, byte(3, sload(29))) sstore(30, shr(8, sload(31)))',
    'addresses': 'let m := sub(shl(160, 1), 1) sstore(0, and(calldataload(0), m)) sstore(1, and(caller(), m)) sstore(2, or(and(sload(2), not(m)), and(calldataload(32), m))) sstore(3, eq(and(sload(3), m), caller())) if eq(calldataload(0), and(calldataload(0), sub(shl(160, 1), 1))) { sstore(4, 1) }',
}


# ------------------------------------------------------------ T07
def keys(names):
    """The storage keys the compiler keeps immutables under: (of the value, of the mark that it is set) by name."""
    r = {}
    for n in names:
        p = tv.Prog(obj('setimmutable(0, "%s", 7)' % n, 'K'), 'K', host.Env(max_calldata=0, size=0), {})
        ev = [[(k[0], v[0]) for what, k, v in s.host.events if what == 'sstore'] for s in p.run() if s.out[0] == 'finish']
        p.close()
        if len(ev) != 1 or [isinstance(v, int) and v == 7 for _, v in ev[0]] not in ([True, False], [False, True]) or not all(isinstance(k, int) for k, _ in ev[0]):
            raise check.Inconclusive('no keys for the immutable %s: %s' % (n, ev))
        r[n] = tuple(k for k, _ in sorted(ev[0], key=lambda e: not isinstance(e[1], int) or e[1] != 7))
    return r


IMM = ['7', '12', 'a name that is longer than a word A', 'a name that is longer than a word B', 'A', 'a', 'x' * 31, 'x' * 32, 'x' * 33, 'immutable_7', '70', '07', '1', '2']
LINKS = {'contracts/L.sol:Math': '0x' + '12' * 20, 'B.sol:B': '0x' + 'fe' * 20}


def T07(ck):
    ck.bounds = ['every value the programs read; results of external calls of up to 8 bytes']
    c = lambda k, **o: (lambda: host.Env(**dict(dict(max_calldata=k, size=k, codesize=64, max_ret=8, ext_status=(0, 1, 2)), **o)))
    V = {'plain': {}, 'aggressive': {'opt_level': 'aggressive'}}
    for k in (4, 36, 68):
        tv.case(ck, 'factory, calldata of %d bytes' % k, prog('factory'), env=c(k), main='F_7_deployed', opts=V)
    tv.case(ck, 'factory, deployed', prog('factory'), env=c(0), main='F_7', opts=V)
    L = {k: dict(o, symbols=LINKS) for k, o in V.items()}
    tv.case(ck, 'library', prog('library'), env=c(68), main='L_8_deployed', opts=L)
    tv.case(ck, 'library, deployed', prog('library'), env=c(0), main='L_8', opts=L)
    memo = {}

    def found():
        if not memo:
            memo.update(keys(IMM))
        return memo

    def distinct():
        ks = [k for pair in found().values() for k in pair]
        if len(set(ks)) != len(ks):
            raise check.Violation('two immutables share a storage key', {'keys': {n: ['%064x' % k for k in v] for n, v in found().items()}})
        if any(k < 1 << 64 for k in ks):
            raise check.Violation('an immutable is kept under a key that the program uses for its own variables', {'keys': {n: ['%064x' % k for k in v] for n, v in found().items()}})
        return len(ks)
    ck.case('immutables are kept apart', distinct)
    for k in (0, 32, 64):
        tv.case(ck, 'immutables, deployed with %d bytes' % k, prog('immut'), env=c(k), main='I_6', opts=V, ref=lambda: {'immutables': found()})
    tv.case(ck, 'immutables', prog('immut'), env=c(32), main='I_6_deployed', opts=V, ref=lambda: {'immutables': found()})


# ------------------------------------------------------------ T08
def T08(ck):
    ck.bounds = ['every value the programs read; the word at 64 is only used as the free memory pointer, below 2**32']
    ck.assumptions = ['the word at 64 is reached only by mload and mstore at the literal 64, and functions named fun_transfer are the standard ERC20 transfer, as the option requires']
    A = {'all': {'enable_all_optimizers': True, 'opt_level': 'aggressive'}, 'all, little-endian storage': {'enable_all_optimizers': True, 'little_endian_storage': True, 'opt_level': 'aggressive'}}
    if ck.tier == 'thorough':
        A['all, no passes'] = {'enable_all_optimizers': True, 'disable_all_optimizers': True}
        A['all, byte results'] = {'enable_all_optimizers': True, 'little_endian_storage': True, 'ret': 'bytes32'}
    # programs that read memory around 64 by its address, or that the option rejects
    other = ('memory at', 'memory guard', 'functions named like transfers', 'prevrandao', 'difficulty', 'mstore of', 'factory, calldata')
    one = A if ck.tier == 'thorough' else {k: o for k, o in A.items() if 'little' in k}
    for f, opts in [(T02, one), (T03, one), (T04, one), (T06, A), (T07, one)] + [(T01, A), (T05, A)] * (ck.tier == 'thorough'):
        with tv.forced(opts, skip=lambda n: n.startswith(other)):
            b = ck.bounds
            f(ck)
            ck.bounds = b
    with tv.forced(A):
        for n in (3, 36, 68, 100):
            tv.case(ck, 'ERC20 token, calldata of %d bytes' % n, prog('erc20'), env=lambda n=n: host.Env(max_calldata=n, size=n, codesize=64), main='ERC20Token_9_deployed')
        tv.case(ck, 'ERC20 token, deployed', prog('erc20'), env=cd(32), main='ERC20Token_9')
        tv.case(ck, 'the word at 64 is memory', obj('mstore(64, 128) sstore(0, keccak256(64, 32)) calldatacopy(64, 0, 32) sstore(1, mload(64))'), env=cd(32))
