// Trace-validation driver: evaluates a Quint specification on recorded traces with Quint's own
// library (parser, type checker, evaluator). It judges nothing itself: a trace is accepted
// when the specification's `step` action is enabled until `accepted` holds and `inv` holds in
// every state; otherwise the specification's `diag` value is reported.
//
//   node qdrive.js SPEC.qnt JOBS.jsonl OUT.jsonl [maxSteps]
//
// JOBS.jsonl may appear after the start (it is then renamed into place). A job is {"id": ..., "vars": {name: value}}; values: true/false, numbers and "#123" are
// integers, other strings are strings, arrays are lists, {"#tup": [...]} tuples,
// {"#v": [label, value]} variants, other objects records.
'use strict'
const fs = require('fs')
const Q = process.env.QUINT_LIB || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src/'
const cmds = require(Q + 'cliCommands.js')
const { toExpr } = require(Q + 'cliHelpers.js')
const { Evaluator } = require(Q + 'runtime/impl/evaluator.js')
const { rv } = require(Q + 'runtime/impl/runtimeValue.js')
const { newTraceRecorder } = require(Q + 'runtime/trace.js')
const { newRng } = require(Q + 'rng.js')

const big = new Map()
function val(v) {
  switch (typeof v) {
    case 'boolean': return rv.mkBool(v)
    case 'number': return rv.mkInt(BigInt(v))
    case 'string': return v[0] === '#' ? rv.mkInt(BigInt(v.slice(1))) : rv.mkStr(v)
  }
  if (Array.isArray(v)) return rv.mkList(v.map(val))
  if (v['#tup']) return rv.mkTuple(v['#tup'].map(val))
  if (v['#map']) return rv.mkMap(v['#map'].map(([a, b]) => [val(a), val(b)]))
  if (v['#v']) return rv.mkVariant(v['#v'][0], val(v['#v'][1]))
  return rv.mkRecord(Object.keys(v).sort().map(k => [k, val(v[k])]))
}
function show(ex) {
  switch (ex.kind) {
    case 'int': { const s = ex.value.toString(); return s.length < 16 ? Number(s) : '#' + s }
    case 'bool': case 'str': return ex.value
    case 'app': {
      if (ex.opcode === 'Rec') {
        const r = {}
        for (let i = 0; i < ex.args.length; i += 2) r[ex.args[i].value] = show(ex.args[i + 1])
        return r
      }
      return ex.args.map(show)
    }
  }
  return String(ex.kind)
}
async function main() {
  const [spec, jobs, out, cap] = process.argv.slice(2)
  const args = { input: spec }
  let r = await cmds.load(args)
  for (const f of [cmds.parse, cmds.typecheck]) {
    if (r.isLeft()) throw new Error(JSON.stringify(r.value.msg || r.value))
    r = await f(r.value)
  }
  if (r.isLeft()) throw new Error(JSON.stringify(r.value.msg || r.value))
  const prev = r.value
  const expr = s => {
    const e = toExpr(prev, s)
    if (e.isLeft()) throw new Error(s + ': ' + JSON.stringify(e.value))
    return e.value
  }
  const rng = newRng(1n)
  const rec = newTraceRecorder(0, rng, 1)
  const ev = new Evaluator(prev.resolver.table, rec, rng)
  const E = { step: expr('step'), inv: expr('inv'), accepted: expr('accepted'), diag: expr('diag'), info: expr('info') }
  const get = (e) => {
    const v = ev.evaluate(e)
    if (v.isLeft()) throw new Error('spec: ' + v.value.message + ' ' + (v.value.code || ''))
    return show(v.value)
  }
  // evaluating builds the registers of the variables the first time
  for (const k in E) { try { ev.evaluate(E[k]) } catch (e) { /* not set yet */ } }
  const parent = process.ppid
  while (!fs.existsSync(jobs)) {
    // the jobs appear once the implementation has been run
    if (process.ppid !== parent) process.exit(3)
    await new Promise(done => setTimeout(done, 50))
  }
  const lines = fs.readFileSync(jobs, 'utf8').split('\n').filter(l => l.length > 0)
  const fd = fs.openSync(out, 'w')
  const max = cap ? Number(cap) : 100000
  for (const line of lines) {
    const job = JSON.parse(line)
    const res = { id: job.id, ok: false, steps: 0 }
    try {
      ev.reset()
      ev.ctx.varStorage.fromRecord(val(job.vars))
      for (;;) {
        if (!get(E.inv)) { res.why = 'invariant'; break }
        if (get(E.accepted)) { res.ok = true; break }
        if (res.steps >= max) { res.why = 'steps'; break }
        const before = ev.ctx.varStorage.asRecord()
        if (!get(E.step)) {
          ev.ctx.varStorage.fromRecord(before)
          res.why = 'disabled'
          break
        }
        ev.shift()
        res.steps++
      }
      if (!res.ok) res.diag = get(E.diag)
      res.info = get(E.info)
    } catch (e) {
      res.error = String(e.message || e)
    }
    fs.writeSync(fd, JSON.stringify(res) + '\n')
  }
  fs.closeSync(fd)
}
main().catch(e => { console.error(e); process.exit(2) })
