// P30: what the TypeScript generator produces
import { Scenario, T } from './engine'
import { Client } from '@repo/srpc/client'
import { createMux } from '@repo/srpc/mux'
import { createHandler } from '@repo/srpc/handler'
import { Server } from '@repo/srpc/server'
import { Empty, MethodKind } from '@aptre/protobuf-es-lite'
import { Pair, bytes, step } from './lib'
import { services as generated } from '@gen/index'
import * as msgs from '@gen/msgs.pb'
import * as local from '@gen/local.pb'
import * as echo from '@repo/echo/echo_srpc.pb'
import * as mock from '@repo/mock/mock_srpc.pb'
import { EchoMsg } from '@repo/echo/echo.pb'
import { MockMsg } from '@repo/mock/mock.pb'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb'

interface M {
  name: string
  kind: number
  in: string
  out: string
  idem?: number
}
interface Svc {
  file: string
  name: string
  def: any
  id: string
  Client?: any
  methods: M[]
  checkedIn?: boolean
}

const types: Record<string, any> = {}
for (const t of [msgs.MsgA, msgs.MsgB, local.Local, local.Outer_Inner, Empty, EchoMsg, MockMsg, RpcStreamPacket]) types[t.typeName] = t

const rsp = 'rpcstream.RpcStreamPacket'
const m = (name: string, kind: number, i: string, o = i): M => ({ name, kind, in: i, out: o })
const services: Svc[] = [
  ...generated,
  {
    file: 'repo', name: 'echo.Echoer', def: echo.EchoerDefinition, id: echo.EchoerServiceName, Client: echo.EchoerClient, checkedIn: true,
    methods: [m('Echo', 0, 'echo.EchoMsg'), m('EchoServerStream', 1, 'echo.EchoMsg'), m('EchoClientStream', 2, 'echo.EchoMsg'), m('EchoBidiStream', 3, 'echo.EchoMsg'), m('RpcStream', 3, rsp), m('DoNothing', 0, 'google.protobuf.Empty')],
  },
  { file: 'repo', name: 'e2e.mock.Mock', def: mock.MockDefinition, id: mock.MockServiceName, Client: mock.MockClient, checkedIn: true, methods: [m('MockRequest', 0, 'e2e.mock.MockMsg')] },
]
const kindOf = [MethodKind.Unary, MethodKind.ServerStreaming, MethodKind.ClientStreaming, MethodKind.BiDiStreaming]
const manyIn = (k: number) => k >= 2
const manyOut = (k: number) => k === 1 || k === 3

// value is the i-th message of a type; number 0 encodes as no bytes.
function value(type: string, i: number): any {
  if (type === rsp) return { body: { case: 'data', value: bytes(i) } }
  if (type === 'google.protobuf.Empty' || i === 0) return {}
  const f = types[type].fields[0].name
  return { [f]: 'v' + i }
}
const show = (type: string, v: any) => (v instanceof Object ? Buffer.from(types[type].toBinary(v)).toString('hex') + '/' + Object.keys(v).join() : String(v))
const hex = (b: any) => (b instanceof Uint8Array ? Buffer.from(b).toString('hex') : 'not bytes: ' + typeof b)

const definitions: Scenario = {
  prop: 'P30', name: 'definitions', quick: 1, thorough: 1, weight: 0.2,
  doc: 'the definition of every service: its name, its methods in order, their types, kinds and idempotency',
  main: (t) => {
    const s = services[t.choose(services.length)]
    const at = s.name + ': '
    if (!s.def) return t.failf(at + 'no definition')
    if (s.def.typeName !== s.name) t.failf(at + 'the definition is called ' + s.def.typeName)
    if (s.id !== s.name) t.failf(at + 'the service name constant is ' + s.id)
    const keys = Object.keys(s.def.methods)
    const want = s.methods.map((x) => x.name)
    if (!s.checkedIn && keys.join() !== want.join()) t.failf(at + `methods [${keys}], want [${want}]`)
    for (const x of s.methods) {
      const d = s.def.methods[x.name]
      const l = at + x.name + ': '
      if (!d) return t.failf(l + 'not in the definition')
      if (d.name !== x.name) t.failf(l + 'is called ' + d.name)
      if (d.I?.typeName !== x.in || d.I !== types[x.in]) t.failf(l + 'the request type is ' + d.I?.typeName)
      if (d.O?.typeName !== x.out || d.O !== types[x.out]) t.failf(l + 'the response type is ' + d.O?.typeName)
      if (d.kind !== kindOf[x.kind]) t.failf(l + 'the kind is ' + d.kind)
      if (d.idempotency !== x.idem) t.failf(l + 'the idempotency is ' + d.idempotency)
    }
    if (s.methods.length && typeof s.Client !== 'function') t.failf(at + 'no client')
    t.outcome(s.methods.length + ' methods')
  },
}

interface Call {
  kind: number
  service: string
  method: string
  data: any
  signal: any
}

// recorder is a ProtoRpc that notes what it is asked for and answers with run.
function recorder(calls: Call[], one: (c: Call) => Promise<any>, many: (c: Call) => AsyncIterable<any>): any {
  const note = (kind: number, a: any[]): Call => {
    const c = { kind, service: a[0], method: a[1], data: a[2], signal: a[3] }
    calls.push(c)
    return c
  }
  return {
    request: (...a: any[]) => one(note(0, a)),
    serverStreamingRequest: (...a: any[]) => many(note(1, a)),
    clientStreamingRequest: (...a: any[]) => one(note(2, a)),
    bidirectionalStreamingRequest: (...a: any[]) => many(note(3, a)),
  }
}

function client(files: string[], name: string): Scenario {
  const list = services.filter((s) => files.includes(s.file) && s.methods.length)
  return {
    prop: 'P30', name: 'client-' + name, quick: 1, thorough: 3,
    doc: `every method of the generated clients (${files}): the request it makes of the connection, and what becomes of the answers`,
    main: async (t) => {
      const s = list[t.choose(list.length)]
      const x = s.methods[t.choose(s.methods.length)]
      const id = t.of<any>(undefined, 'other.Service', '')
      const opts = id === undefined ? t.of<any>(undefined, {}) : { service: id }
      const signal = t.bool() ? new AbortController().signal : undefined
      const at = s.name + '.' + x.name + ': '
      // what goes in
      const ins: number[] = manyIn(x.kind) ? t.of([], [1], [0, 2]) : [t.of(1, 0)]
      const inErr = manyIn(x.kind) ? t.of('', 'input boom') : ''
      // what comes out
      const outs: number[] = manyOut(x.kind) ? t.of([], [3], [0, 4]) : [t.of(3, 0)]
      const outErr = t.of('', 'answer boom')
      // how far the connection reads, and how far the caller reads
      const readAll = manyIn(x.kind) ? t.bool() : true
      const leave = manyOut(x.kind) && outs.length ? t.bool() : false
      const got: string[] = []
      let ended = ''
      let closed = false
      let fed = false
      const calls: Call[] = []
      const consume = async (c: Call) => {
        if (!manyIn(x.kind)) {
          got.push(hex(c.data))
          return
        }
        if (readAll) {
          for await (const b of c.data) got.push(hex(b))
          ended = 'end'
          return
        }
        for await (const b of c.data) {
          got.push(hex(b))
          break
        }
        ended = 'left'
      }
      const rpc = recorder(
        calls,
        async (c) => {
          await consume(c)
          await step(t, 'answer')
          if (outErr) throw new Error(outErr)
          return types[x.out].toBinary(value(x.out, outs[0]))
        },
        async function* (c) {
          try {
            await consume(c)
            for (const o of outs) {
              await step(t, 'answer' + o)
              yield types[x.out].toBinary(value(x.out, o))
            }
            if (outErr) throw new Error(outErr)
          } finally {
            closed = true
          }
        },
      )
      const feed = async function* () {
        try {
          for (const i of ins) {
            await step(t, 'in' + i)
            yield value(x.in, i)
          }
          if (inErr) throw new Error(inErr)
        } finally {
          fed = true
        }
      }
      const f = new s.Client(rpc, opts)[x.name] // a method on its own keeps its client
      const arg = manyIn(x.kind) ? feed() : value(x.in, ins[0])
      const before = manyIn(x.kind) ? '' : show(x.in, arg)
      const res: string[] = []
      let err = ''
      try {
        const r = f(arg, signal)
        if (manyOut(x.kind)) {
          for await (const o of r) {
            res.push(show(x.out, o))
            if (leave) break
          }
        } else {
          if (typeof r?.then !== 'function') t.failf(at + 'the client did not return a promise')
          res.push(show(x.out, await r))
        }
      } catch (e: any) {
        err = e?.message ?? String(e)
      }
      await t.idle()
      if (calls.length !== 1) return t.failf(at + `the client made ${calls.length} calls`)
      const c = calls[0]
      if (c.kind !== x.kind) t.failf(at + `the client made a call of kind ${c.kind}, not ${x.kind}`)
      if (c.service !== (id || s.name)) t.failf(at + `the client called the service ${c.service}`)
      if (c.method !== x.name) t.failf(at + `the client called the method ${c.method}`)
      if (c.signal !== signal) t.failf(at + (signal ? 'the abort signal did not reach the call' : 'an abort signal came from nowhere'))
      if (!manyIn(x.kind) && show(x.in, arg) !== before) t.failf(at + 'the client changed the request')
      const failIn = inErr && (readAll || ins.length === 0)
      const want = ins.map((i) => hex(types[x.in].toBinary(value(x.in, i)))).slice(0, readAll ? ins.length : 1)
      if (got.join() !== want.join()) t.failf(at + `requests [${got}], want [${want}]`)
      if (manyIn(x.kind)) {
        if (!fed) t.failf(at + 'the source of requests is still held')
        if (!failIn && ended !== (readAll || ins.length === 0 ? 'end' : 'left') && !(ended === 'left' && ins.length === 0)) t.failf(at + 'the requests ended with ' + ended)
      }
      const outWant = outs.map((o) => show(x.out, types[x.out].fromBinary(types[x.out].toBinary(value(x.out, o)))))
      if (failIn) {
        if (err !== inErr) t.failf(at + `the failing requests ended the call with ${err || 'no error'}`)
        if (res.length) t.failf(at + 'answers of a failed call: ' + res)
      } else if (manyOut(x.kind)) {
        const w = leave ? outWant.slice(0, 1) : outWant
        if (res.join() !== w.join()) t.failf(at + `answers [${res}], want [${w}]`)
        if (err !== (leave ? '' : outErr)) t.failf(at + `the answers ended with ${err || 'no error'}`)
        if (!closed) t.failf(at + 'the answers were never released')
      } else {
        if (err !== outErr) t.failf(at + `the call ended with ${err || 'no error'}`)
        if (!err && res.join() !== outWant.join()) t.failf(at + `answer ${res}, want ${outWant}`)
      }
      t.outcome(`${x.kind} ${got.length}/${res.length}${err && '!'}`)
    },
  }
}

function served(files: string[], name: string): Scenario {
  const list = services.filter((s) => files.includes(s.file) && s.methods.length)
  return {
    prop: 'P30', name: 'served-' + name, quick: 1, thorough: 3,
    doc: `two calls at once of methods of a generated client (${files}) to a service made from the generated definition, over the real client and server`,
    main: async (t) => {
      const s = list[t.choose(list.length)]
      const n = s.methods.length
      const i = t.choose(n)
      const j = n > 4 ? [i, (i + 1) % n, (i + 3) % n][t.choose(3)] : t.choose(n)
      const id = t.of<any>(undefined, 'other.Service')
      const ran: string[] = []
      const impl: any = {}
      for (const x of s.methods) {
        const one = (v: any, want: number[]) => {
          ran.push(x.name + ':' + show(x.in, v))
          void want
        }
        const all = async (r: AsyncIterable<any>) => {
          const l: string[] = []
          for await (const v of r) l.push(show(x.in, v))
          ran.push(x.name + ':' + l.join('+'))
        }
        const outs = async function* () {
          yield value(x.out, 5)
          yield value(x.out, 6)
        }
        impl[x.name] = [
          async (v: any) => {
            one(v, [])
            return value(x.out, 5)
          },
          (v: any) => {
            one(v, [])
            return outs()
          },
          async (r: any) => {
            await all(r)
            return value(x.out, 5)
          },
          async function* (r: any) {
            await all(r)
            yield* outs()
          },
        ][x.kind]
      }
      const mux = createMux()
      mux.register(createHandler(s.def, impl, id))
      const server = new Server(mux.lookupMethod)
      let k = 0
      const c = new Client(async () => {
        const p = new Pair(t, 'p' + k++)
        server.handlePacketStream(p.b)
        return p.a
      })
      const g = new s.Client(c, id && { service: id })
      const want: string[] = []
      const run = (x: M, v: number) => {
        const ins = manyIn(x.kind) ? [v, v + 1] : [v]
        want.push(x.name + ':' + ins.map((q) => show(x.in, types[x.in].fromBinary(types[x.in].toBinary(value(x.in, q))))).join('+'))
        t.go(s.name + '.' + x.name, async () => {
          const feed = async function* () {
            for (const q of ins) yield value(x.in, q)
          }
          const r = g[x.name](manyIn(x.kind) ? feed() : value(x.in, v))
          const got: string[] = []
          if (manyOut(x.kind)) for await (const o of r) got.push(show(x.out, o))
          else got.push(show(x.out, await r))
          const w = (manyOut(x.kind) ? [5, 6] : [5]).map((q) => show(x.out, types[x.out].fromBinary(types[x.out].toBinary(value(x.out, q)))))
          if (got.join() !== w.join()) t.failf(`${s.name}.${x.name}: answers [${got}], want [${w}]`)
        })
      }
      run(s.methods[i], 1)
      run(s.methods[j], 7)
      await t.idle()
      if (ran.sort().join() !== want.sort().join()) t.failf(`${s.name}: ran [${ran}], want [${want}]`)
      t.outcome(String(ran.length))
    },
  }
}

const groups: [string[], string][] = [
  [['pairs'], 'pairs'],
  [['dir/triples'], 'triples'],
  [['types'], 'types'],
  [['names', 'nopkg', 'two/one', 'two/two'], 'names'],
  [['local'], 'local'],
  [['repo'], 'repo'],
]
export const p30: Scenario[] = [definitions, ...groups.map((g) => client(...g)), ...groups.map((g) => served(...g))]
