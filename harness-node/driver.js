// Drives the Node.js module through histories of the specification and records what a JavaScript caller observes.
// node --expose-gc driver.js MODULE TRACE LIMIT CASES
'use strict'
const fs = require('fs'), crypto = require('crypto')
const [, , modulePath, tracePath, limit, casesPath] = process.argv
const kzg = require(modulePath)
const out = fs.openSync(tracePath, 'w')
let buf = []
const flush = () => { if (buf.length) fs.writeSync(out, buf.join('\n') + '\n'); buf = [] }
const push = (v) => { buf.push(JSON.stringify(v)); if (buf.length > 50) flush() }
let salt = 1, ids = 1, runs = 0, steps = 0
const un = (h) => Buffer.from(h, 'hex')
// a byte string in one of the forms a caller may hold it in
function bytes(h) {
  const b = un(h), k = salt++ % 4
  if (k === 0) { const a = new Uint8Array(b.length); a.set(b); return a }
  if (k === 1) { const a = Buffer.alloc(b.length + 7, 0xa5); b.copy(a, 3); return a.subarray(3, 3 + b.length) }
  if (k === 2) { const a = new Uint8Array(b.length + 64).fill(0x5a); a.set(b, 31); return a.subarray(31, 31 + b.length) }
  return new Uint8Array(new Uint8Array(b).buffer)
}
function strange(t) {
  switch (t) {
    case 'undefined': return undefined
    case 'null': return null
    case 'number': return 7
    case 'string': return 'blob'
    case 'array': return [1, 2, 3]
    case 'object': return { length: 48 }
    case 'u16': return new Uint16Array(24)
    case 'arraybuffer': return new ArrayBuffer(48)
    case 'dataview': return new DataView(new ArrayBuffer(48))
    case 'function': return () => 1
    case 'detached': { const a = new Uint8Array(131072); structuredClone(a.buffer, { transfer: [a.buffer] }); return a }
    case 'bool': return true
    case 'bigint': return 5n
  }
  throw new Error('driver: ' + t)
}
const item = (x) => x === null ? null : typeof x === 'object' ? strange(x.js) : bytes(x)
const list = (l) => Array.isArray(l) ? l.map(item) : item(l)
const index = (s) => s.startsWith('n:') ? Number(s.slice(2)) : s.startsWith('s:') ? s.slice(2) : s.startsWith('x:') ? strange(s.slice(2)) : BigInt(s)
const indices = (l) => Array.isArray(l) ? l.map(index) : l === null ? null : strange(l.js)
const all = (a) => { const h = crypto.createHash('sha256'); const go = (x) => ArrayBuffer.isView(x) ? h.update(x) : Array.isArray(x) ? x.forEach(go) : h.update(String(typeof x)); go(a); return h.digest('hex') }
const digest = (a) => { const h = crypto.createHash('sha256'); a.forEach((x) => h.update(x)); return h.digest('hex') }
const u8 = (x, n) => x instanceof Uint8Array && x.length === n
const u8s = (a, k, n) => Array.isArray(a) && a.length === k && a.every((x) => u8(x, n))
// what came back, as kind and digest
function seen(op, r, e) {
  if (op === 'commit') return u8(r, 48) ? ['ok', digest([r]) === e.digest ? 'same' : 'other'] : ['shape', '']
  if (op === 'verify') return r === true ? ['ok', 'same'] : r === false ? ['invalid', 'same'] : ['shape', '']
  if (op === 'cells') return u8s(r, 128, 2048) ? ['ok', digest(r) === e.cells_digest ? 'same' : 'other'] : ['shape', '']
  return r && u8s(r.cells, 128, 2048) && u8s(r.proofs, 128, 48) ? ['ok', digest([...r.cells, ...r.proofs]) === e.digest ? 'same' : 'other'] : ['shape', '']
}
function argsOf(e) {
  switch (e.op) {
    case 'commit': case 'compute': return [item(e.blob)]
    case 'recover': return [indices(e.idx), list(e.cells)]
    default: return [list(e.coms), indices(e.idx), list(e.cells), list(e.proofs)]
  }
}
const NAMES = { commit: 'lobToKzgCommitment', compute: 'omputeCellsAndKzgProofs', cells: 'omputeCells', recover: 'ecoverCellsAndKzgProofs', verify: 'erifyCellKzgProofBatch' }
const FIRST = { commit: 'b', compute: 'c', cells: 'c', recover: 'r', verify: 'v' }
const method = (op, async) => (async ? 'async' + FIRST[op].toUpperCase() : FIRST[op]) + NAMES[op]
class Late extends Error {}
function call(th, slot, ctx, entries, n, how) {
  const e = entries[n - 1], id = ids++
  let op = e.op
  if (op === 'compute' && salt % 2 === 1) op = 'cells'
  const args = argsOf(e), before = all(args)
  const done = (kind, same, text) => push({ e: 'end', t: th, call: id, slot, entry: n, op, how, lib: e.kind, kind, digest: same, inputs: all(args) === before, text: String(text || '').slice(0, 120) })
  push({ e: 'begin', t: th, call: id, slot, entry: n })
  steps++
  const bad = (x) => done(x instanceof Late ? 'never' : x instanceof Error ? 'err' : 'shape', '', x && x.message)
  if (how === 'sync') {
    let r
    try { r = ctx[method(op, false)](...args) } catch (x) { bad(x); return null }
    const [k, s] = seen(op, r, e)
    done(k, s)
    return null
  }
  let p
  try { p = ctx[method(op, true)](...args) } catch (x) { bad(x); return null }
  if (!(p instanceof Promise)) { done('shape', ''); return null }
  let timer
  const late = new Promise((_, no) => { timer = setTimeout(() => no(new Late('no answer')), limit * 1000) })
  return Promise.race([p, late]).then((r) => { const [k, s] = seen(op, r, e); done(k, s) }, bad).finally(() => clearTimeout(timer))
}
function make(th, slot, pre, threads) {
  // the constructor is one more way to make a context
  const c = pre && threads === 1 && salt++ % 2 ? new kzg.DasContextJs() : kzg.DasContextJs.create({ usePrecomp: pre, numThreads: threads })
  push({ e: 'new', t: th, slot, ok: c instanceof kzg.DasContextJs })
  return c
}
async function program(th, prog, shared, entries) {
  const mine = new Map()
  let waiting = []
  for (const it of prog) {
    if (it[0] === 'new') mine.set(it[1], make(th, it[1], it[2], it[3]))
    else if (it[0] === 'free') {
      // calls on it may still be running
      mine.delete(it[1])
      push({ e: 'drop', t: th, slot: it[1] })
      global.gc()
    } else if (it[0] === 'freelater') { await Promise.all(waiting); waiting = [] } else {
      const ctx = mine.get(it[1]) || shared[it[1] - 1]
      const how = mine.has(it[1]) || salt++ % 3 ? 'async' : 'sync'
      const p = call(th, it[1], ctx, entries, it[2], how)
      if (p) waiting.push(p)
      if (waiting.length >= 1 + salt % 4) { await Promise.all(waiting); waiting = [] }
    }
  }
  await Promise.all(waiting)
}
const constants = () => ['BYTES_PER_COMMITMENT', 'BYTES_PER_PROOF', 'BYTES_PER_FIELD_ELEMENT', 'BYTES_PER_BLOB', 'MAX_NUM_COLUMNS', 'BYTES_PER_CELL'].map((n) => kzg[n])
async function main() {
  let i = 0
  for (const line of fs.readFileSync(casesPath, 'utf8').split('\n').filter((l) => l.trim())) {
    const c = JSON.parse(line)
    push({ e: 'case', case: i++, id: c.id, plan: c.plan, consts: constants() })
    // both ways to call, for every entry, when the history is the sweep
    const shared = c.shared.map((s, k) => make(0, k + 1, s[0], s[1]))
    if (c.plan === 'sweep') for (let n = 1; n <= c.entries.length; n++) { call(0, 1 + n % 3, shared[n % 3], c.entries, n, 'sync'); await call(0, 1 + n % 3, shared[n % 3], c.entries, n, 'async') }
    else await Promise.all(c.progs.map((p, t) => program(t + 1, p, shared, c.entries)))
    for (let k = shared.length; k > 0; k--) push({ e: 'drop', t: 0, slot: k })
    runs++
  }
  push({ e: 'done' })
  flush()
  console.log(JSON.stringify({ runs, steps, fails: [], samples: [] }))
  process.exit(0)
}
process.on('uncaughtException', (x) => { console.error(x); flush(); process.exit(3) })
process.on('unhandledRejection', (x) => { console.error(x); flush(); process.exit(3) })
main()
