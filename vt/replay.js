// Runs a linked wasm module under a concrete host: the native replay of a counterexample.
'use strict';
const fs = require('fs');
const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const H = job.host || {};
const T = H.table || {};
const events = [];
let mem = () => new Uint8Array(inst.exports.memory.buffer);
class Stop extends Error { constructor(o) { super('stop'); this.o = o; } }
class Bad extends Error {}
const hex = b => Buffer.from(b).toString('hex');
const rd = (p, n) => { p >>>= 0; n >>>= 0; const m = mem(); if (p + n > m.length) throw new Bad('host read out of bounds'); return m.slice(p, p + n); };
const wr = (p, b) => { p >>>= 0; const m = mem(); if (p + b.length > m.length) throw new Bad('host write out of bounds'); m.set(b, p); };
const bytes = h => Uint8Array.from(Buffer.from(h, 'hex'));
const word = (k, n) => bytes((H.words[k] || '').padStart(2 * n, '0').slice(-2 * n));
const look = k => bytes((k in T ? T[k] : '').padStart(64, '0'));
const rev = b => Uint8Array.from(b).reverse();
let epoch = 0, ngas = 0, ncall = 0, cur = null;
let st = {}, ts = {};
const cd = bytes(H.calldata || '');
const pad = (v, n) => v.toString(16).padStart(2 * n, '0');
const u = v => BigInt.asUintN(64, BigInt(v));

// keccak-256
function keccak(data) {
  const M = (1n << 64n) - 1n, rol = (x, n) => n ? ((x << BigInt(n)) | (x >> BigInt(64 - n))) & M : x;
  const RC = ['0000000000000001','0000000000008082','800000000000808A','8000000080008000','000000000000808B','0000000080000001','8000000080008081','8000000000008009','000000000000008A','0000000000000088','0000000080008009','000000008000000A','000000008000808B','800000000000008B','8000000000008089','8000000000008003','8000000000008002','8000000000000080','000000000000800A','800000008000000A','8000000080008081','8000000000008080','0000000080000001','8000000080008008'].map(x => BigInt('0x' + x));
  const A = Array.from({ length: 25 }, () => 0n), rate = 136;
  const p = Buffer.alloc(Math.ceil((data.length + 1) / rate) * rate); Buffer.from(data).copy(p);
  p[data.length] ^= 1; p[p.length - 1] ^= 0x80;
  const r = { 0: 0 }; let x = 1, y = 0;
  for (let t = 0; t < 24; t++) { r[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; [x, y] = [y, (2 * x + 3 * y) % 5]; }
  for (let o = 0; o < p.length; o += rate) {
    for (let i = 0; i < rate / 8; i++) A[i] ^= p.readBigUInt64LE(o + 8 * i);
    for (const rc of RC) {
      const C = [0, 1, 2, 3, 4].map(x => A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20]);
      const D = [0, 1, 2, 3, 4].map(x => C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1));
      for (let i = 0; i < 25; i++) A[i] ^= D[i % 5];
      const B = [];
      for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], r[x + 5 * y]);
      for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ ((~B[(x + 1) % 5 + 5 * y] & M) & B[(x + 2) % 5 + 5 * y]);
      A[0] ^= rc;
    }
  }
  const out = Buffer.alloc(32); for (let i = 0; i < 4; i++) out.writeBigUInt64LE(A[i], 8 * i); return Uint8Array.from(out);
}
function sload(w, m, key) { const k = hex(key); if (k in m) return m[k]; return look(w + epoch + ':' + k); }
function ext(kind, gas, addr, value, data) {
  events.push([kind, pad(u(gas), 8), addr, value, data]);
  return after();
}
function after() { const k = ncall++; epoch++; st = {}; ts = {}; cur = (H.calls || [])[k] || { status: 0, ret: '', addr: '' }; return cur.status; }
const env = {
  getCallDataSize: () => cd.length,
  callDataCopy: (p, o, n) => { o >>>= 0; n >>>= 0; if (o + n > cd.length && n) throw new Bad('callDataCopy past the end'); wr(p, cd.slice(o, o + n)); },
  getBlockHash: (n, p) => { wr(p, look('blockhash:' + pad(u(n), 8))); return 0; },
  getBlockGasLimit: () => BigInt('0x0' + (H.words.gaslimit || '')), getBlockTimestamp: () => BigInt('0x0' + (H.words.timestamp || '')),
  getBlockNumber: () => BigInt('0x0' + (H.words.number || '')),
  getGasLeft: () => BigInt('0x0' + (H.words['gas' + ngas++] || '')),
  getExternalBalance: (a, p) => wr(p, look('balance:' + hex(rd(a, 20)))),
  getExternalCodeHash: (a, p) => wr(p, look('extcodehash:' + hex(rd(a, 20)))),
  getExternalCodeSize: a => Number(BigInt('0x' + hex(look('extcodesize:' + hex(rd(a, 20))))) & 0x7fffffffn),
  externalCodeCopy: (a, p, o, n) => { n >>>= 0; const ad = hex(rd(a, 20)); const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = look('extcode:' + ad + ',' + pad((o + i) >>> 0, 4))[31]; wr(p, b); },
  storageLoad: (k, r) => wr(r, sload('storage', st, rd(k, 32))),
  storageStore: (k, v) => { st[hex(rd(k, 32))] = rd(v, 32); events.push(['sstore', hex(rd(k, 32)), hex(rd(v, 32))]); },
  storageLoadLittleEndian: (k, r) => wr(r, rev(sload('storage', st, rd(k, 32)))),
  storageStoreLittleEndian: (k, v) => { const x = rev(rd(v, 32)); st[hex(rd(k, 32))] = x; events.push(['sstore', hex(rd(k, 32)), hex(x)]); },
  transientLoad: (k, r) => wr(r, sload('tstorage', ts, rd(k, 32))),
  transientStore: (k, v) => { ts[hex(rd(k, 32))] = rd(v, 32); events.push(['tstore', hex(rd(k, 32)), hex(rd(v, 32))]); },
  getCodeSize: () => H.codesize >>> 0,
  codeCopy: (p, o, n) => { o >>>= 0; n >>>= 0; if (n && o + n > H.codesize) throw new Bad('codeCopy past the end'); const b = new Uint8Array(n); const c = bytes(H.code || ''); for (let i = 0; i < n; i++) b[i] = o + i < c.length ? c[o + i] : look('code:' + pad(o + i, 4))[31]; wr(p, b); },
  keccak256: (p, n, r) => { const d = rd(p, n), k = 'keccak:' + hex(d); wr(r, k in T ? look(k) : keccak(d)); },
  sha256: () => { throw new Bad('sha256'); },
  callContract: (g, a, v, d, n) => ext('call', g, hex(rd(a, 20)), hex(rd(v, 32)), hex(rd(d, n))),
  callCode: (g, a, v, d, n) => ext('callcode', g, hex(rd(a, 20)), hex(rd(v, 32)), hex(rd(d, n))),
  callDelegate: (g, a, d, n) => ext('delegatecall', g, hex(rd(a, 20)), '00'.repeat(32), hex(rd(d, n))),
  callStatic: (g, a, d, n) => ext('staticcall', g, hex(rd(a, 20)), '00'.repeat(32), hex(rd(d, n))),
  createContract: (v, c, cn, d, dn, s, is2, r) => {
    const e = [is2 ? 'create2' : 'create', hex(rd(v, 32)), hex(rd(c, cn)), hex(rd(d, dn))]; if (is2) e.push(hex(rd(s, 32))); events.push(e);
    const x = after(); if (x === 0) wr(r, bytes(cur.addr.padStart(40, '0'))); return x;
  },
  finish: (p, n) => { throw new Stop(['finish', hex(rd(p, n))]); },
  revert: (p, n) => { throw new Stop(['revert', hex(rd(p, n))]); },
  invalid: () => { throw new Stop(['invalid']); },
  selfDestruct: p => { throw new Stop(['selfdestruct', hex(rd(p, 20))]); },
  emitLogEvent: (p, n, k, ...t) => { if (k > 4) throw new Bad('topics'); events.push(['log' + k, hex(rd(p, n)), ...t.slice(0, k).map(x => hex(rd(x, 32)))]); },
  getReturnDataSize: () => cur ? cur.ret.length / 2 : 0,
  returnDataCopy: (p, o, n) => { o >>>= 0; n >>>= 0; const b = cur ? bytes(cur.ret) : new Uint8Array(0); if (o + n > b.length && n) throw new Bad('returnDataCopy past the end'); wr(p, b.slice(o, o + n)); },
  debug_bytes: () => {},
};
for (const op of ['addmod', 'mulmod']) env[op] = (a, b, n, r) => {
  const k = op + ':' + [a, b, n].map(x => hex(rd(x, 32))).join(',');
  if (k in T) return wr(r, look(k));
  const [x, y, z] = [a, b, n].map(q => BigInt('0x' + hex(rd(q, 32))));
  wr(r, bytes(pad(z === 0n ? 0n : (op === 'addmod' ? x + y : x * y) % z, 32)));
};
for (const [f, k] of Object.entries({ getCallValue: 'callvalue', getTxGasPrice: 'gasprice', getBaseFee: 'basefee', getBlobBaseFee: 'blobbasefee', getChainId: 'chainid', getBlockPrevRandao: 'prevrandao' })) env[f] = p => wr(p, word(k, 32));
for (const [f, k] of Object.entries({ getAddress: 'address', getCaller: 'caller', getBlockCoinbase: 'coinbase', getTxOrigin: 'origin' })) env[f] = p => wr(p, word(k, 20));
H.words = H.words || {};
const mod = new WebAssembly.Module(fs.readFileSync(job.wasm));
const imports = { env: {} };
for (const i of WebAssembly.Module.imports(mod)) if (i.kind === 'function') imports.env[i.name] = (...a) => { if (!(i.name in env)) throw new Bad('unknown import ' + i.name); return env[i.name](...a); };
const inst = new WebAssembly.Instance(mod, imports);
const out = { outcome: null, rets: [], reads: [], events };
const S = job.scratch ? inst.exports[job.scratch].value : 0;
const at = a => a.r !== undefined ? Number(BigInt('0x' + out.rets[a.r])) + a.d : S + a.p;
const val = a => typeof a === 'object' ? (a.rel !== undefined ? (S + a.rel - inst.exports.evm_get_memory_addr(0)) | 0 : a.i64 === undefined ? at(a) : BigInt.asIntN(64, BigInt(a.i64))) : a | 0;
try {
  for (const s of job.steps) {
    for (const w of s.writes || []) wr(at(w[0]), bytes(w[1]));
    const f = s.fn ? inst.exports[s.fn] : () => undefined;
    if (!f) throw new Bad('no export ' + s.fn);
    const r = f(...s.args.map(val));
    out.rets.push(r === undefined ? null : (typeof r === 'bigint' ? BigInt.asUintN(64, r) : BigInt(r >>> 0)).toString(16));
    out.reads.push((s.reads || []).map(x => hex(rd(at(x[0]), x[1]))));
  }
  out.outcome = ['return'];
} catch (e) {
  if (e instanceof Stop) out.outcome = e.o;
  else out.outcome = ['trap', String(e.message || e)];
}
fs.writeFileSync(process.argv[3], JSON.stringify(out));
