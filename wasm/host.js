'use strict';
// Runs recorded contract calls (JSON lines on stdin) on the wasm artifact and compares outcome and
// storage with the native run.  usage: node host.js artifact.wasm summary.json
const fs = require('fs');
const readline = require('readline');
const crypto = require('crypto');

const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const summaryFile = process.argv[3];

// ---- bech32, as MockApi does it -------------------------------------------------------------
const CS = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l';
const PREFIX = 'cosmwasm';
function polymod(v) {
  const G = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
  let c = 1;
  for (const x of v) {
    const b = c >>> 25;
    c = ((c & 0x1ffffff) << 5) ^ x;
    for (let i = 0; i < 5; i++) if ((b >>> i) & 1) c ^= G[i];
  }
  return c >>> 0;
}
const expand = (h) => [...[...h].map((c) => c.charCodeAt(0) >> 5), 0, ...[...h].map((c) => c.charCodeAt(0) & 31)];
function decode(s) {
  if (s.length > 1023 || s.length === 0) return null;
  if (s !== s.toLowerCase() && s !== s.toUpperCase()) return null;
  s = s.toLowerCase();
  const p = s.lastIndexOf('1');
  if (p < 1 || s.slice(0, p) !== PREFIX) return null;
  const d = [...s.slice(p + 1)].map((c) => CS.indexOf(c));
  if (d.length < 6 || d.includes(-1)) return null;
  if (polymod([...expand(PREFIX), ...d]) !== 1) return null;
  const out = [];
  let acc = 0, bits = 0;
  for (const x of d.slice(0, -6)) {
    acc = ((acc << 5) | x) & 0xfff;
    bits += 5;
    if (bits >= 8) { bits -= 8; out.push((acc >> bits) & 0xff); }
  }
  return out.length >= 1 && out.length <= 255 ? Buffer.from(out) : null;
}
function encode(b) {
  if (b.length < 1 || b.length > 255) return null;
  const d = [];
  let acc = 0, bits = 0;
  for (const x of b) {
    acc = ((acc << 8) | x) & 0xfffff;
    bits += 8;
    while (bits >= 5) { bits -= 5; d.push((acc >> bits) & 31); }
  }
  if (bits) d.push((acc << (5 - bits)) & 31);
  const c = polymod([...expand(PREFIX), ...d, 0, 0, 0, 0, 0, 0]) ^ 1;
  for (let i = 0; i < 6; i++) d.push((c >>> (5 * (5 - i))) & 31);
  return PREFIX + '1' + d.map((x) => CS[x]).join('');
}

// ---- the host --------------------------------------------------------------------------------
class Call {
  constructor(storage) {
    this.db = storage; // Map hex -> hex
    this.iters = [];
    this.debug = [];
    const env = {
      db_read: (k) => { const v = this.db.get(this.hex(k)); return v === undefined ? 0 : this.put(Buffer.from(v, 'hex')); },
      db_write: (k, v) => {
        const val = this.hex(v);
        if (val === '') throw new Error('empty value');
        this.db.set(this.hex(k), val);
      },
      db_remove: (k) => { this.db.delete(this.hex(k)); },
      db_scan: (s, e, o) => {
        const lo = s ? this.hex(s) : null, hi = e ? this.hex(e) : null;
        let ks = [...this.db.keys()].filter((k) => (lo === null || k >= lo) && (hi === null || k < hi)).sort();
        if (o === 2) ks.reverse();
        this.iters.push(ks.map((k) => [k, this.db.get(k)]));
        return this.iters.length;
      },
      db_next: (i) => {
        const r = this.iters[i - 1].shift() || ['', ''];
        const k = Buffer.from(r[0], 'hex'), v = Buffer.from(r[1], 'hex');
        const kl = Buffer.alloc(4), vl = Buffer.alloc(4);
        kl.writeUInt32BE(k.length); vl.writeUInt32BE(v.length);
        return this.put(Buffer.concat([k, kl, v, vl]));
      },
      db_next_key: (i) => { const r = this.iters[i - 1].shift(); return r ? this.put(Buffer.from(r[0], 'hex')) : 0; },
      db_next_value: (i) => { const r = this.iters[i - 1].shift(); return r ? this.put(Buffer.from(r[1], 'hex')) : 0; },
      addr_validate: (p) => {
        const s = this.buf(p).toString('utf8');
        const c = decode(s);
        return c && encode(c) === s ? 0 : this.put(Buffer.from('invalid address'));
      },
      addr_canonicalize: (p, d) => {
        const c = decode(this.buf(p).toString('utf8'));
        if (!c) return this.put(Buffer.from('invalid address'));
        this.write(d, c);
        return 0;
      },
      addr_humanize: (p, d) => {
        const s = encode(this.buf(p));
        if (!s) return this.put(Buffer.from('invalid address'));
        this.write(d, Buffer.from(s));
        return 0;
      },
      debug: (p) => { this.debug.push(this.buf(p).toString('utf8')); },
      abort: (p) => { throw new Error('abort: ' + this.buf(p).toString('utf8')); },
      query_chain: () => { throw new Error('query_chain is not provided'); },
    };
    for (const i of WebAssembly.Module.imports(mod)) {
      if (i.module !== 'env' || i.kind !== 'function') throw new Error(`unknown import ${i.module}.${i.name}`);
      if (!env[i.name]) env[i.name] = () => { throw new Error(`import ${i.name} called`); };
    }
    this.inst = new WebAssembly.Instance(mod, { env });
    this.x = this.inst.exports;
  }
  dv() { return new DataView(this.x.memory.buffer); }
  buf(p) {
    const d = this.dv(), off = d.getUint32(p, true), len = d.getUint32(p + 8, true);
    return Buffer.from(Buffer.from(this.x.memory.buffer, off, len));
  }
  hex(p) { return this.buf(p).toString('hex'); }
  write(p, b) {
    const d = this.dv(), off = d.getUint32(p, true), cap = d.getUint32(p + 4, true);
    if (b.length > cap) throw new Error('region too small');
    b.copy(Buffer.from(this.x.memory.buffer, off, cap));
    d.setUint32(p + 8, b.length, true);
  }
  put(b) { const p = this.x.allocate(b.length); this.write(p, b); return p; }
  run(entry, args) {
    const r = this.x[entry](...args.map((a) => this.put(a)));
    return this.buf(r).toString('utf8');
  }
}

// numbers keep their text, so nothing is lost in u64s
const parse = (t) => JSON.parse(t, (k, v, c) => (typeof v === 'number' ? { $n: c.source } : v));
function canon(v) {
  if (Array.isArray(v)) return v.map(canon);
  if (v && typeof v === 'object') return Object.fromEntries(Object.keys(v).sort().map((k) => [k, canon(v[k])]));
  return v;
}
const text = (v) => JSON.stringify(canon(v));

const sum = { calls: 0, evaluations: 0, kinds: {}, rules: {}, samples: [], violations: [], exports: WebAssembly.Module.exports(mod).map((e) => e.name) };
const seen = new Set();
const hash = (s) => crypto.createHash('sha1').update(s).digest('hex').slice(0, 16);
function check(ok, rule, rec, detail) {
  sum.evaluations++;
  sum.rules[rule] = (sum.rules[rule] || 0) + 1;
  if (!ok && sum.violations.length < 5) sum.violations.push({ rule, detail: detail(), entry: rec.entry, msg: Buffer.from(rec.msg, 'hex').toString('utf8').slice(0, 2000), record: rec });
}

function one(line) {
  const rec = JSON.parse(line);
  const ref = parse(line);
  sum.calls++;
  if (!sum.exports.includes(rec.entry)) return; // reported separately
  const db = new Map(rec.before);
  let kind, out;
  let call;
  try {
    call = new Call(db);
  } catch (e) {
    check(false, 'the artifact can be instantiated', rec, () => String(e));
    return;
  }
  try {
    // env and info go in exactly as recorded
    const args = [Buffer.from(unnum(ref.env))];
    if (rec.info) args.push(Buffer.from(unnum(ref.info)));
    args.push(Buffer.from(rec.msg, 'hex'));
    const t = call.run(rec.entry, args);
    const v = parse(t);
    if (Object.prototype.hasOwnProperty.call(v, 'ok')) {
      kind = 'ok';
      out = v.ok;
      if (rec.entry === 'query') out = parse(Buffer.from(v.ok, 'base64').toString('utf8'));
    } else {
      kind = 'err';
      out = v.error;
    }
  } catch (e) {
    kind = 'panic';
    out = String(e);
  }
  const k = `${rec.entry}:${kind}`;
  sum.kinds[k] = (sum.kinds[k] || 0) + 1;
  seen.add(hash(rec.entry + kind + rec.msg + JSON.stringify(rec.before)));
  check(kind === rec.kind, 'same outcome (response, error or abort)', rec, () => `native ${rec.kind} ${JSON.stringify(rec.out).slice(0, 800)}; wasm ${kind} ${JSON.stringify(out).slice(0, 800)}`);
  if (kind === 'ok' && rec.kind === 'ok') {
    const a = text(ref.out), b = text(out);
    check(a === b, 'same response', rec, () => `native ${a.slice(0, 1500)}; wasm ${b.slice(0, 1500)}`);
    const x = JSON.stringify([...db.entries()].sort()), y = JSON.stringify([...rec.after].sort());
    check(x === y, 'same storage afterwards', rec, () => `native ${y.slice(0, 1500)}; wasm ${x.slice(0, 1500)}`);
  }
  // parse and address errors are worded by the host
  if (kind === 'err' && rec.kind === 'err' && !String(rec.out).startsWith('parse: ') && !/addr_(validate|canonicalize|humanize) errored/.test(out)) {
    check(out === rec.out, 'same error', rec, () => `native ${rec.out}; wasm ${out}`);
  }
  if (sum.samples.length < 3 && sum.calls % 97 === 3) sum.samples.push({ entry: rec.entry, message: Buffer.from(rec.msg, 'hex').toString('utf8').slice(0, 300), native: rec.kind, wasm: kind });
}
function unnum(v) {
  if (Array.isArray(v)) return '[' + v.map(unnum).join(',') + ']';
  if (v && typeof v === 'object') {
    if ('$n' in v) return v.$n;
    return '{' + Object.keys(v).map((k) => JSON.stringify(k) + ':' + unnum(v[k])).join(',') + '}';
  }
  return JSON.stringify(v);
}

(async () => {
  const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of rl) if (line) one(line);
  sum.seen = [...seen];
  fs.writeFileSync(summaryFile, JSON.stringify(sum));
})();
