// P28: TypeScript routing: muxes, handlers and the generated stubs
import { Scenario, T } from './engine'
import { createMux } from '@repo/srpc/mux'
import { createHandler, StaticHandler } from '@repo/srpc/handler'
import { createInvokeFn } from '@repo/srpc/invoker'
import { Client } from '@repo/srpc/client'
import { Server } from '@repo/srpc/server'
import { castToError, ERR_RPC_ABORT, ERR_STREAM_IDLE, isAbortError, isStreamIdleError } from '@repo/srpc/errors'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb'
import { MockClient, MockDefinition } from '@repo/mock/mock_srpc.pb'
import { EchoerServer } from '@repo/echo/server'
import { MethodKind } from '@aptre/protobuf-es-lite'
import { bytes, definition, hex, kinds, Num, Pair, step } from './lib'

const methodNames = ['A', 'B', 'toString', 'constructor', '__proto__']

// mux compares every set of registrations and every query with a table.
const mux: Scenario = {
  prop: 'P28', name: 'mux', quick: 0, thorough: 0,
  doc: 'every sequence of registrations of handlers and lookup functions, and every query: the last handler registered for the method, else the first lookup that knows it, else none',
  main: async (t) => {
    const m = createMux()
    const table = new Map<string, string>()
    const lookups: [string, string, string][] = []
    const n = t.tier === 'thorough' ? 4 : 3
    const seq: string[] = []
    for (let i = 0; i < n; i++) {
      const k = t.choose(7)
      if (k === 0) break
      const id = 'h' + i
      const mk = (s: string, ms: string[]) => new StaticHandler(s, Object.fromEntries(ms.map((x) => [x, (async () => id + s + x) as any])))
      const add = (s: string, ms: string[]) => {
        seq.push(`${s}{${ms}}`)
        m.register(mk(s, ms))
        for (const x of ms) table.set(s + '/' + x, id + s + x)
      }
      if (k === 1) add('s', ['A'])
      if (k === 2) add('s', ['A', 'B'])
      if (k === 3) add('r', ['B'])
      if (k === 4) add('s', [])
      if (k === 5) {
        seq.push('lookup')
        m.registerLookupMethod(async (s, x) => {
          // the earlier ones take longer
          for (let j = 0; j < (n - i) * 4; j++) await null
          return x === 'B' ? ((async () => id + s + x) as any) : null
        })
        lookups.push(['', 'B', id])
      }
      if (k === 6) {
        // a handler as a lookup function
        seq.push('handler lookup')
        const h = mk('s', ['A'])
        m.registerLookupMethod(h.lookupMethod.bind(h))
        lookups.push(['s', 'A', id])
      }
    }
    let bad = false
    try {
      m.register(new StaticHandler('', {}))
    } catch {
      bad = true
    }
    if (!bad) t.failf('a handler without a service was registered')
    for (const s of ['s', 'r', 'x', '', 'constructor', '__proto__'])
      for (const x of [...methodNames, '']) {
        let want: string | null = (s && table.get(s + '/' + x)) || null
        if (!want)
          for (const [ls, lx, id] of lookups)
            if (lx === x && (ls === '' || s === '' || ls === s)) {
              want = ls === '' ? id + s + x : id + ls + x
              break
            }
        let got: any
        try {
          const f: any = await m.lookupMethod(s, x)
          got = f ? await f() : null
        } catch (e: any) {
          got = 'error ' + e.message
        }
        if (got !== want) t.failf(`${seq}: ${s}/${x} is ${String(got)}, expected ${want}`)
      }
  },
}

// remote: whatever names a remote asks for, it gets an answer.
const remote: Scenario = {
  prop: 'P28', name: 'names', quick: 8, thorough: 8,
  doc: 'calls for every combination of odd service and method names, through the mux or the handler alone: found, or refused as not found',
  main: async (t) => {
    const p = new Pair(t, 'p')
    const srv = t.of('svc', 'x', 'toString', '__proto__', 'constructor', 'Svc', 'svc ', ' svc', '/svc', 'svc/', 'sv', 'svc2')
    const method = t.of('Unary', 'Nope', 'toString', '__proto__', 'constructor', 'hasOwnProperty', 'unary', 'UNARY', 'Unary ', ' Unary', '/Unary', 'Unar', 'Unary2')
    const h = createHandler(definition, { Unary: async (r: any) => r })
    const alone = t.bool()
    const m = createMux()
    m.register(h)
    new Server(alone ? h.lookupMethod.bind(h) : m.lookupMethod).handlePacketStream(p.b)
    let r = ''
    try {
      r = hex(await new Client(async () => p.a).request(srv, method, bytes(3)))
    } catch (e: any) {
      r = e.message
    }
    const want = srv === 'svc' && method === 'Unary' ? '03' : `not found: ${srv}/${method}`
    if (r !== want) t.failf(`${srv}/${method}: ${r}, expected ${want}`)
    await t.idle()
    t.outcome(r)
  },
}

const handler: Scenario = {
  prop: 'P28', name: 'handler', quick: 0, thorough: 0,
  doc: 'a handler made of any set of implemented methods, with or without its own service id, offers these and calls them with their object as this',
  main: async (t) => {
    const has = kinds.filter(() => t.bool())
    const id = t.of(undefined, 'other')
    class Impl {
      tag = 'mine'
    }
    const impl: any = new Impl()
    for (const k of has)
      impl[k] = function (this: any) {
        if (this?.tag !== 'mine') throw new Error('this is lost')
        const one = { n: 5 }
        return k === 'Unary' || k === 'Client' ? Promise.resolve(one) : (async function* () { yield one })()
      }
    const h = createHandler(definition, impl, id)
    if (h.getServiceID() !== (id ?? 'svc')) t.failf('the service is ' + h.getServiceID())
    if (h.getMethodIDs().sort().join() !== [...has].sort().join()) t.failf(`the methods are ${h.getMethodIDs()} of ${has}`)
    for (const s of [id ?? 'svc', '', 'nope'])
      for (const k of [...kinds, 'Nope']) {
        const f: any = await h.lookupMethod(s, k)
        if (!!f !== (has.includes(k) && s !== 'nope')) t.failf(`${s}/${k} is ${f}`)
        if (!f) continue
        const out: string[] = []
        await f((async function* () { yield bytes(1) })(), async (src: any) => {
          for await (const b of src) out.push(hex(b))
        })
        await step(t, 'done')
        if (out.join() !== '05') t.failf(`${k} answered [${out}]`)
      }
  },
}

// invoke: what an invoke function does with every sequence of requests and every behaviour of the method.
const invoke: Scenario = {
  prop: 'P28', name: 'invoke', quick: 0, thorough: 0, weight: 2,
  doc: 'every kind of method, sequence of requests and behaviour: the requests arrive, the answers leave in order, errors are thrown',
  main: async (t) => {
    const k = t.of(...kinds)
    const n = t.choose(4) // requests
    const bad = t.of('', 'source fails', 'undecodable')
    const does = t.of('ok', 'sync', 'async', 'string', 'undefined', 'plain', 'late')
    const outs = k === 'Unary' || k === 'Client' ? [7] : t.of([], [8], [0, 9])
    const streaming = k === 'Client' || k === 'Bidi'
    const seen: number[] = []
    let inErr = ''
    const proto: any = (arg: any) => {
      if (does === 'sync') throw new Error('sync')
      if (does === 'string') throw 'text'
      if (does === 'undefined') return undefined
      const take = async () => {
        if (streaming) {
          try {
            for await (const r of arg) seen.push(r.n)
          } catch (e: any) {
            inErr = e.message
            throw e
          }
        } else seen.push(arg.n)
        if (does === 'async') throw new Error('async')
      }
      if (k === 'Unary' || k === 'Client') return does === 'plain' ? { n: 1 } : take().then(() => ({ n: outs[0] }))
      return (async function* () {
        if (does === 'late') for (const o of outs) yield { n: o }
        await take()
        if (does !== 'late') for (const o of outs) yield { n: o }
      })()
    }
    const f = createInvokeFn(definition.methods[k], proto)
    async function* src() {
      for (let i = 0; i < n; i++) {
        await step(t, 'req')
        yield bytes(i + 1)
      }
      if (bad === 'source fails') throw new Error('source')
      if (bad === 'undecodable') yield bytes(255)
    }
    const out: string[] = []
    let outEnd: string | null = null
    let thrown = ''
    try {
      await f(src(), async (s: any) => {
        try {
          for await (const b of s) out.push(hex(b))
          outEnd = ''
        } catch (e: any) {
          outEnd = e.message
        }
      })
    } catch (e: any) {
      thrown = e.message
    }
    await t.idle()
    // the model
    const srcErr = bad === 'source fails' ? 'source' : bad === 'undecodable' ? 'bad message' : ''
    let err = ''
    let called = true
    if (!streaming && n === 0) {
      err = srcErr || 'request object was empty'
      called = false
    } else if (does === 'sync') err = 'sync'
    else if (does === 'string') err = 'error calling implementation: text'
    else if (does === 'undefined') err = 'return value was undefined'
    else if (does === 'plain' && (k === 'Unary' || k === 'Client')) err = 'expected return value to be a Promise'
    else if (streaming && srcErr) err = srcErr
    else if (does === 'async') err = 'async'
    const wantSeen = !called || ['sync', 'string', 'undefined'].includes(does) || (does === 'plain' && (k === 'Unary' || k === 'Client')) ? [] : streaming ? Array.from({ length: n }, (_, i) => i + 1) : [1]
    if (seen.join() !== wantSeen.join()) t.failf(`${k} ${does}: the method received [${seen}], expected [${wantSeen}]`)
    const e = thrown || outEnd || ''
    if (e !== err) t.failf(`${k} ${does} ${bad} with ${n} requests: the error is '${e}', expected '${err}'`)
    const want = outs.map((o) => hex(Num.toBinary({ n: o })))
    if (!err && (out.join() !== want.join() || outEnd !== '')) t.failf(`${k} ${does}: answered [${out}] and ${outEnd}, expected [${want}]`)
    if (err && !out.every((x, i) => x === want[i])) t.failf(`${k} ${does}: answered [${out}] of [${want}]`)
    if (err && does !== 'late' && out.length) t.failf(`${k} ${does}: answered [${out}] before its error`)
    t.outcome(`${out} ${e}`)
  },
}

// stubs: the generated clients call the method of their definition, and the echo server answers as documented.
const stubs: Scenario = {
  prop: 'P28', name: 'stubs', quick: 10, thorough: 12,
  doc: 'every method of the generated echo and mock clients reaches its own method, of its own kind, with its own service id, and nothing of the answer is lost',
  main: async (t) => {
    const p = new Pair(t, 'p')
    const m = createMux()
    const id = t.of(undefined, 'renamed')
    const log: string[] = []
    const spy = (def: any, impl: any) => new Proxy(impl, {
      get: (o: any, k: string) => (o[k] ? (a: any) => {
        log.push(def.typeName + '.' + k)
        return o[k](a)
      } : undefined),
    })
    m.register(createHandler(EchoerDefinition as any, spy(EchoerDefinition, new EchoerServer()), id))
    m.register(createHandler(MockDefinition as any, spy(MockDefinition, { MockRequest: async (r: any) => ({ body: r.body + '!' }) }), id))
    new Server(m.lookupMethod).handlePacketStream(p.b)
    const c = new Client(async () => p.a)
    const echo = new EchoerClient(c, id ? { service: id } : undefined)
    const msg = { body: t.of('hi', 'longer') }
    async function* reqs() {
      yield msg
      yield { body: 'second' }
    }
    const all = async (s: AsyncIterable<any>) => {
      const o: string[] = []
      for await (const x of s) o.push(x.body ?? '')
      return o.join()
    }
    const bound = t.bool()
    const b = msg.body
    const cases: [string, () => Promise<any>, string][] = [
      ['echo.Echoer.Echo', async () => (await (bound ? (0, echo.Echo)(msg) : echo.Echo(msg))).body, b],
      ['echo.Echoer.EchoServerStream', () => all(bound ? (0, echo.EchoServerStream)(msg) : echo.EchoServerStream(msg)), [b, b, b, b, b].join()],
      ['echo.Echoer.EchoClientStream', async () => (await echo.EchoClientStream(reqs())).body, b],
      ['echo.Echoer.EchoBidiStream', () => all(echo.EchoBidiStream(reqs())), 'hello from server,' + b + ',second'],
      ['echo.Echoer.DoNothing', async () => Object.keys(await echo.DoNothing({})).length, '0'],
      ['e2e.mock.Mock.MockRequest', async () => (await new MockClient(c, id ? { service: id } : undefined).MockRequest(msg)).body, b + '!'],
    ]
    const [name, f, want] = t.of(...cases)
    const got = String(await f())
    if (got !== want) t.failf(`${name}: ${got}, expected ${want}`)
    if (log.join() !== name) t.failf(`${name}: called ${log}`)
    for (const def of [EchoerDefinition, MockDefinition] as any[])
      for (const [k, v] of Object.entries<any>(def.methods)) if (v.name !== k) t.failf(`${k} is called ${v.name}`)
    await t.idle()
    t.outcome(got)
  },
}

const errs: Scenario = {
  prop: 'P28', name: 'errors', quick: 0, thorough: 0,
  doc: 'the errors helpers tell the errors apart and never fail themselves, whatever is thrown',
  main: async (t) => {
    const [v, abort, idle, msg] = t.of<[any, boolean, boolean, string]>(
      [new Error(ERR_RPC_ABORT), true, false, ERR_RPC_ABORT], [new Error(ERR_STREAM_IDLE), false, true, ERR_STREAM_IDLE], [new Error('x'), false, false, 'x'],
      ['text', false, false, 'text'], [undefined, false, false, 'dflt'], [null, false, false, 'dflt'], [{ message: 'm' }, false, false, 'm'],
      [7, false, false, '7'], ['', false, false, 'dflt'], [new Error(''), false, false, 'Error'],
      ...[ERR_RPC_ABORT + 'ED', 'x' + ERR_RPC_ABORT, ERR_STREAM_IDLE + ' ', ERR_RPC_ABORT.toLowerCase()].map((m): [any, boolean, boolean, string] => [new Error(m), false, false, m]),
      [ERR_RPC_ABORT, false, false, ERR_RPC_ABORT], [ERR_STREAM_IDLE, false, false, ERR_STREAM_IDLE],
    )
    if (isAbortError(v) !== abort) t.failf('isAbortError')
    if (isStreamIdleError(v) !== idle) t.failf('isStreamIdleError')
    const e = castToError(v, 'dflt')
    if (e.message !== msg) t.failf(`castToError: ${e.message}, expected ${msg}`)
    t.outcome(e.message)
  },
}
void MethodKind

export const p28: Scenario[] = [mux, remote, handler, invoke, stubs, errs]
