// P24: the TypeScript server and client follow the wire protocol for every sequence of packets
import { Scenario, T } from './engine'
import { ServerRPC } from '@repo/srpc/server-rpc'
import { ClientRPC } from '@repo/srpc/client-rpc'
import { Server } from '@repo/srpc/server'
import { Packet } from '@repo/srpc/rpcproto.pb'
import { ERR_RPC_ABORT } from '@repo/srpc/errors'
import { bytes, hex, Pair, step } from './lib'

interface Sym {
  name: string
  packet: any
}
const start = (rpcService: string, rpcMethod: string, data?: Uint8Array, dataIsZero?: boolean) => ({
  body: { case: 'callStart', value: { rpcService, rpcMethod, data, dataIsZero } },
})
const data = (d?: Uint8Array, dataIsZero?: boolean, complete?: boolean, error?: string) => ({
  body: { case: 'callData', value: { data: d, dataIsZero, complete, error } },
})
const alphabet: Sym[] = [
  { name: 'start', packet: start('s', 'm') },
  { name: 'start+1', packet: start('s', 'm', bytes(1)) },
  { name: 'start+0', packet: start('s', 'm', undefined, true) },
  { name: 'start?', packet: start('s', 'x') },
  { name: 'start-', packet: start('', 'm') },
  { name: 'start/', packet: start('s', '') },
  { name: 'data2', packet: data(bytes(2)) },
  { name: 'data0', packet: data(bytes(), true) },
  { name: 'data-', packet: data(bytes()) },
  { name: 'data3+', packet: data(bytes(3), false, true) },
  { name: 'data0+', packet: data(bytes(), true, true) },
  { name: 'data5z', packet: data(bytes(5), true) },
  { name: 'complete', packet: data(undefined, false, true) },
  { name: 'error', packet: data(undefined, false, false, 'remote') },
  { name: 'error+', packet: data(undefined, false, true, 'remote') },
  { name: 'data4!', packet: data(bytes(4), false, true, 'remote') },
  { name: 'cancel', packet: { body: { case: 'callCancel', value: true } } },
  { name: 'uncancel', packet: { body: { case: 'callCancel', value: false } } },
  { name: 'none', packet: {} },
]

// Model of one side.
class Model {
  in: string[] = [] // what the reader gets
  ended: string | null = null // '' or the error
  out: string[] = []
  closed = false
  started = false
  close(err: string | null) {
    if (this.closed) return
    this.closed = true
    this.out.push(err ? 'complete!' + err : 'cancel')
    this.end(err ?? '')
  }
  end(err: string) {
    if (this.ended === null) this.ended = err
  }
  push(d: Uint8Array | undefined, zero: boolean | undefined) {
    if (this.ended !== null) return
    if (zero) this.in.push('')
    else if (d?.length) this.in.push(hex(d))
  }
  data(v: any) {
    this.push(v.data, v.dataIsZero)
    if (v.error) this.end(v.error)
    else if (v.complete) this.end('')
  }
}

function show(p: any): string {
  const b = p.body
  if (b?.case === 'callCancel') return b.value ? 'cancel' : '?'
  if (b?.case === 'callStart') return 'start ' + b.value.rpcService + '/' + b.value.rpcMethod
  if (b?.case !== 'callData') return '?'
  const v = b.value
  if (v.error) return (v.complete ? 'complete' : 'incomplete') + '!' + v.error
  if (v.complete) return v.data?.length || v.dataIsZero ? 'data+complete' : 'complete'
  return 'data ' + hex(v.data ?? bytes()) + (v.data?.length || v.dataIsZero ? '' : ' lost')
}

// drive delivers the packets one after the other.
async function* deliver(t: T, list: Sym[]): AsyncGenerator<any> {
  for (const s of list) {
    await step(t, s.name)
    yield s.packet
  }
}
async function collect(src: AsyncIterable<any>, out: string[]) {
  for await (const p of src) out.push(show(p))
  out.push('end')
}

function pick(t: T, n: number, part = 0, parts = 1): Sym[] {
  const l: Sym[] = []
  for (let i = 0; i < n; i++) {
    if (i === 0 && parts > 1) {
      // the first packets are shared out among the scenarios
      const mine = alphabet.filter((_, k) => k % parts === part)
      const k = t.choose(mine.length + 1)
      if (k === 0) break
      l.push(mine[k - 1])
      continue
    }
    const k = t.choose(alphabet.length + 1)
    if (k === 0) break
    l.push(alphabet[k - 1])
  }
  return l
}

type Via = 'packets' | 'messages' | 'stream'

// server drives a server side call and compares all that can be seen with the model.
function server(name: string, depth: [number, number], weight: number, vias: Via[], part = 0, parts = 1): Scenario {
  return {
    prop: 'P24', name, quick: 0, thorough: 0, weight,
    doc: 'every sequence of packets to a server call, with a handler that reads all, answers at once, or fails',
    main: async (t) => {
      const list = pick(t, t.tier === 'thorough' ? depth[1] : depth[0], part, parts)
      const how = t.of('collect', 'early', 'fails', 'hold')
      const via = t.of(...vias)
      const got: string[] = []
      let end: string | null = null
      let runs = 0
      const invoke = async (src: any, sink: any) => {
        runs++
        const rd = (async () => {
          try {
            for await (const d of src) got.push(hex(d))
            end = ''
          } catch (e: any) {
            end = e.message
          }
        })()
        if (how === 'fails') throw new Error('handler')
        if (how === 'early') {
          await sink(
            (async function* () {
              yield bytes(9)
              yield bytes()
            })(),
          )
          return
        }
        await rd
        if (how === 'hold') return
        if (end) throw new Error(end)
        await sink([bytes(got.length)])
      }
      const lookup = async (s: string, m: string) => (s === 's' && m === 'm' ? (invoke as any) : null)
      const out: string[] = []
      if (via === 'stream') {
        // the whole server over a stream of encoded packets
        const p = new Pair(t, 'p')
        new Server(lookup).handlePacketStream(p.b)
        t.go('client', () =>
          p.a.sink(
            (async function* () {
              for (const s of list) {
                await step(t, s.name)
                yield Packet.toBinary(s.packet)
              }
              await t.idle()
            })(),
          ),
        )
        t.go('reader', async () => {
          for await (const d of p.a.source) out.push(show(Packet.fromBinary(d)))
          out.push('end')
        })
      } else {
        const rpc = new ServerRPC(lookup)
        t.go('writer', () => collect(rpc.source, out))
        if (via === 'packets') {
          t.go('sink', () =>
            rpc.sink(
              (async function* () {
                yield* deliver(t, list)
                await t.idle()
              })(),
            ),
          )
        } else {
          t.go('messages', async () => {
            for (const s of list) {
              await step(t, s.name)
              await rpc.handleMessage(Packet.toBinary(s.packet))
            }
            await t.idle()
            await rpc.close(new Error(ERR_RPC_ABORT))
          })
        }
      }
      await t.idle()
      await t.idle()
      // the model
      const m = new Model()
      let wantRuns = 0
      const react = () => {
        if (m.closed || !m.started || how === 'hold') return
        if (how === 'fails') m.close('handler')
        if (how === 'early') m.out.push('data 09', 'data ', 'complete')
        if (how === 'early') m.close(null)
        if (how === 'collect' && m.ended) m.close(m.ended)
        if (how === 'collect' && m.ended === '') {
          m.out.push('data ' + hex(bytes(m.in.length)), 'complete')
          m.close(null)
        }
      }
      let seen = false
      for (const s of list) {
        if (m.closed) break
        const b = s.packet.body
        if (b?.case === 'callStart') {
          const v = b.value
          if (seen) m.close('call start must be sent only once')
          else {
            seen = true
            if (!v.rpcService || !v.rpcMethod) m.close('rpcService and rpcMethod cannot be empty')
            else if (v.rpcMethod !== 'm') m.close(`not found: s/${v.rpcMethod}`)
            else {
              m.started = true
              wantRuns = 1
              m.push(v.data, v.dataIsZero)
            }
          }
        } else if (b?.case === 'callData') {
          if (!seen) m.close('call start must be sent before call data')
          else m.data(b.value)
        } else if (b?.case === 'callCancel' && b.value) m.close(ERR_RPC_ABORT)
        react()
      }
      m.close(ERR_RPC_ABORT) // the stream ends
      m.out.push('end')
      const a = `runs=${runs} in=[${runs ? got : ''}] end=${runs ? end : null} out=[${out}]`
      const w = `runs=${wantRuns} in=[${wantRuns ? m.in : ''}] end=${wantRuns ? m.ended : null} out=[${m.out}]`
      // once the call has failed, what the handler had not read yet may be lost
      if (a !== w) t.failf(`${list.map((s) => s.name)} with ${how}: ${a}, expected ${w}`)
      t.outcome(out.join(' '))
    },
  }
}

// client drives a client side call.
function client(name: string, depth: [number, number], weight: number): Scenario {
  return {
    prop: 'P24', name, quick: 0, thorough: 0, weight,
    doc: 'every sequence of packets to a client call, with a caller that reads at once or only when all has arrived',
    main: async (t) => {
      const list = pick(t, t.tier === 'thorough' ? depth[1] : depth[0])
      const late = t.bool()
      const rpc = new ClientRPC('s', 'm')
      const out: string[] = []
      t.go('writer', () => collect(rpc.source, out))
      const got: string[] = []
      let end: string | null = null
      const read = async () => {
        try {
          for await (const d of rpc.rpcDataSource) got.push(hex(d))
          end = ''
        } catch (e: any) {
          end = e.message
        }
      }
      await rpc.writeCallStart(t.of(undefined, bytes(), bytes(7)))
      if (!late) t.go('reader', read)
      const all = (async () => {
        await rpc.sink(
          (async function* () {
            yield* deliver(t, list)
            await t.idle()
          })(),
        )
      })()
      t.go('sink', () => all)
      await all
      if (late) await read()
      await t.idle()
      const m = new Model()
      m.out.push('start s/m')
      for (const s of list) {
        if (m.closed) break
        const b = s.packet.body
        if (b?.case === 'callStart') m.close(`unexpected server to client rpc: ${b.value.rpcService || '<empty>'}/${b.value.rpcMethod || '<empty>'}`)
        else if (b?.case === 'callData') m.data(b.value)
        else if (b?.case === 'callCancel' && b.value) m.close(ERR_RPC_ABORT)
      }
      m.close(ERR_RPC_ABORT)
      m.out.push('end')
      // an error may overtake what has not been read
      const wantIn = late && m.ended && got.length === 0 ? [] : m.in
      const a = `in=[${got}] end=${end} out=[${out}]`
      const w = `in=[${wantIn}] end=${m.ended} out=[${m.out}]`
      if (a !== w) t.failf(`${list.map((s) => s.name)}: ${a}, expected ${w}`)
      t.outcome(out.join(' ') + ' ' + end)
    },
  }
}

// wire compares the encoding with the one that rpcproto.proto prescribes.
const wire: Scenario = {
  prop: 'P24', name: 'wire', quick: 0, thorough: 0,
  doc: 'the encoding of every kind of packet is the one rpcproto.proto prescribes; the encoding of what a call writes',
  main: async (t) => {
    const rpc: any = t.bool() ? new ClientRPC('s', 'm') : new ServerRPC(async () => null)
    const want: number[] = []
    const f = (no: number, ...b: number[]) => [(no << 3) | 2, b.length, ...b]
    switch (t.choose(3)) {
      case 0: {
        if (!rpc.writeCallStart) return
        const d = t.of(undefined, bytes(), bytes(5, 6))
        await rpc.writeCallStart(d)
        const v = [...f(1, 115), ...f(2, 109), ...(d?.length ? f(3, ...d) : []), ...(d && !d.length ? [32, 1] : [])]
        want.push(...f(1, ...v))
        break
      }
      case 1: {
        const d = t.of(undefined, bytes(), bytes(0), bytes(5, 6))
        const complete = t.of(undefined, false, true)
        const err = t.of(undefined, '', 'e')
        await rpc.writeCallData(d, complete, err)
        const v = [
          ...(d?.length ? f(1, ...d) : []), ...(d && !d.length ? [16, 1] : []), ...(complete ? [24, 1] : []), ...(err ? f(4, 101) : []),
        ]
        want.push(...f(2, ...v))
        break
      }
      case 2:
        await rpc.writeCallCancel()
        want.push(24, 1)
    }
    const it = rpc.source[Symbol.asyncIterator]()
    const p = (await it.next()).value
    const b = Packet.toBinary(p)
    if (hex(b) !== hex(bytes(...want))) t.failf(`encoded ${hex(b)}, expected ${hex(bytes(...want))}`)
    const back = Packet.toBinary(Packet.fromBinary(b))
    if (hex(back) !== hex(b)) t.failf(`decoded and encoded ${hex(b)}: ${hex(back)}`)
    t.outcome(hex(b))
  },
}

// sync: the packets come from an array. What arrives is handled one packet at a time, in order.
const sync: Scenario = {
  prop: 'P24', name: 'sync', quick: 0, thorough: 0,
  doc: 'packets that come from an array: handled in order, each one after the one before, with a method lookup that takes its time',
  main: async (t) => {
    const list = pick(t, 3)
    const slow = t.bool()
    const got: string[] = []
    let runs = 0
    let end: string | null = null
    const invoke = async (src: any) => {
      runs++
      try {
        for await (const d of src) got.push(hex(d))
        end = ''
      } catch (e: any) {
        end = e.message
      }
    }
    const rpc = new ServerRPC(async (s, m) => {
      if (slow) await step(t, 'lookup')
      return s === 's' && m === 'm' ? (invoke as any) : null
    })
    const out: string[] = []
    t.go('writer', () => collect(rpc.source, out))
    await rpc.sink(list.map((s) => s.packet))
    await t.idle()
    const m = new Model()
    let wantRuns = 0
    let seen = false
    const all: string[] = [] // what arrives, also after the call failed
    for (const s of list) {
      const b = s.packet.body
      if (b?.case === 'callData' && seen) {
        const v: any = b.value
        if (v.dataIsZero) all.push('')
        else if (v.data?.length) all.push(hex(v.data))
      }
      if (m.closed) continue
      if (b?.case === 'callStart') {
        if (seen) m.close('call start must be sent only once')
        else {
          seen = true
          const v = b.value
          if (!v.rpcService || !v.rpcMethod) m.close('rpcService and rpcMethod cannot be empty')
          else if (v.rpcMethod !== 'm') m.close(`not found: s/${v.rpcMethod}`)
          else {
            wantRuns = 1
            m.push(v.data, v.dataIsZero)
            all.push(...m.in)
          }
        }
      } else if (b?.case === 'callData') {
        if (!seen) m.close('call start must be sent before call data')
        else m.data(b.value)
      } else if (b?.case === 'callCancel' && b.value) m.close(ERR_RPC_ABORT)
    }
    const failed = m.closed
    m.close(ERR_RPC_ABORT)
    m.out.push('end')
    const names = list.map((s) => s.name)
    if (runs !== wantRuns) t.failf(`${names}: the handler ran ${runs} times`)
    // an error may overtake what has not been read, and may come after what arrived with it
    if (runs && got.some((g, i) => g !== all[i])) t.failf(`${names}: the handler received [${got}] of [${all}]`)
    if (runs && m.ended === '' && got.length !== m.in.length) t.failf(`${names}: the handler received [${got}] of [${m.in}] and then the end`)
    if (runs && (failed ? end === null : end !== m.ended)) t.failf(`${names}: the handler's reader ended with ${end}, expected ${m.ended}`)
    if (out.join() !== m.out.join()) t.failf(`${names}: sent [${out}], expected [${m.out}]`)
    t.outcome(out.join(' '))
  },
}

// garbage: bytes that are no packet end the call on either side.
const garbage: Scenario = {
  prop: 'P24', name: 'garbage', quick: 0, thorough: 0,
  doc: 'undecodable bytes before, after or instead of the start of a call end it on both sides, on every way in',
  main: async (t) => {
    const bad = t.of(bytes(0xff), bytes(0x0a, 5), bytes(0), bytes(0x0a, 1, 0xff))
    const before = t.of([], [alphabet[0]], [alphabet[1], alphabet[6]])
    const via = t.of('stream', 'message')
    const side = t.of('server', 'client')
    if (via === 'stream' && side === 'client') return
    let end: string | null = null
    let ran = false
    const read = async (src: any) => {
      ran = true
      try {
        for await (const d of src) void d
        end = ''
      } catch (e: any) {
        end = 'error'
      }
    }
    const out: string[] = []
    const srv = new Server(async () => read as any)
    const call: any = side === 'server' ? srv.startRpc() : new ClientRPC('s', 'm')
    const msgs = [...(side === 'server' ? before : before.slice(1)).map((s) => Packet.toBinary(s.packet)), bad]
    if (side === 'client') t.go('reader', () => read(call.rpcDataSource))
    if (via === 'message') {
      t.go('writer', () => collect(call.source, out))
      for (const m of msgs) {
        await step(t, 'msg')
        await call.handleMessage(m)
      }
    } else if (side === 'server') {
      const p = new Pair(t, 'p')
      srv.handlePacketStream(p.b)
      t.go('client', () => p.a.sink((async function* () {
        yield* msgs
        await t.idle()
        await t.idle()
      })()).catch(() => {}))
      t.go('reader', async () => {
        for await (const d of p.a.source) out.push(show(Packet.fromBinary(d)))
        out.push('end')
        p.fail()
      })
      await t.idle()
      if (!out.length) t.failf(`${hex(bad)}: the server said nothing`)
      return void t.outcome(out.join(' '))
    }
    await t.idle()
    if (!call.isClosed) t.failf(`${hex(bad)}: the call goes on`)
    if (ran && end !== 'error') t.failf(`${hex(bad)}: the reader got ${end}`)
    if (!out.some((o) => o.startsWith('complete!')) || out[out.length - 1] !== 'end') t.failf(`${hex(bad)}: the remote was told [${out}]`)
    t.outcome(out.join(' '))
  },
}

export const p24: Scenario[] = [
  ...[0, 1, 2, 3, 4].map((k) => server('server-' + k, [4, 5], 3, ['packets'], k, 5)), server('server-ways', [2, 3], 2, ['packets', 'messages', 'stream']),
  client('client', [3, 4], 2), wire, garbage, sync,
]
