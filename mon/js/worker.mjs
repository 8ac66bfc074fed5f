// Runs calls to the JavaScript library, one JSON object per line.
import './dom.mjs'
import * as l10n from 'moz-l10n-js'
import { state as ftl } from './fluent-shim.mjs'
import { state as mf2 } from './mf2-shim.mjs'
import { createInterface } from 'node:readline'

const run = (call) => {
  const errors = []
  const onError = (error) => errors.push(describe(error))
  ftl.entry = call.ftl ?? null
  mf2.model = call.mf2 ?? null
  const before = JSON.stringify(call.args)
  const args = call.args.map((a) => (a === '$onError' ? onError : a && a.$onError ? { ...a.$onError, onError } : a))
  const res = { value: (ops[call.fn] ?? l10n[call.fn])(...args) ?? null, errors }
  res.kept = JSON.stringify(call.args) === before
  return res
}

const ops = {
  // a normalised message, and how many objects it shares with its argument
  $normalize(msg) {
    const seen = new Set(objects(msg))
    const result = l10n.normalizeMessage(msg)
    let shared = 0
    for (const x of objects(result)) if (seen.has(x)) shared += 1
    return { result, shared }
  }
}

function* objects(x) {
  if (typeof x !== 'object' || x === null) return
  yield x
  for (const v of Object.values(x)) yield* objects(v)
}

const describe = (error) => ({
  name: error?.constructor?.name ?? String(error),
  parse: error instanceof l10n.ParseError,
  serialize: error instanceof l10n.SerializeError,
  message: String(error?.message ?? error),
  range: error?.range ?? null,
  pos: error?.pos ?? null
})

const main = createInterface({ input: process.stdin, crlfDelay: Infinity })
main.on('line', (line) => {
  let res
  try {
    res = run(JSON.parse(line))
  } catch (error) {
    res = { thrown: describe(error) }
  }
  process.stdout.write(JSON.stringify(res).replace(/[\u2028\u2029\x85]/g, (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0')) + '\n')
})
