// P26: TypeScript nested streams: calls inside a call
import { Scenario, T } from './engine'
import { buildRpcStreamOpenStream, handleRpcStream, openRpcStream, RpcStream } from '@repo/rpcstream/rpcstream'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb'
import { Client } from '@repo/srpc/client'
import { createMux } from '@repo/srpc/mux'
import { createHandler } from '@repo/srpc/handler'
import { Server } from '@repo/srpc/server'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb'
import { EchoerServer } from '@repo/echo/server'
import { pushable } from 'it-pushable'
import { bytes, call, definition, feed, hex, kinds, Pair, prefix, step, Result } from './lib'
import { impl, Seen } from './p23'

const init = (componentId: string) => ({ body: { case: 'init', value: { componentId } } })
const ack = (error = '') => ({ body: { case: 'ack', value: { error } } })
const data = (...b: number[]) => ({ body: { case: 'data', value: bytes(...b) } })
const none = {}
const show = (p: any) =>
  p.body?.case === 'data' ? 'data:' + hex(p.body.value) : p.body?.case === 'ack' ? 'ack:' + (p.body.value.error ?? '') : p.body?.case === 'init' ? 'init:' + p.body.value.componentId : 'none'

// caller carries the packets of an opener over a pair.
const caller = (t: T, p: Pair<any>) => (req: any) => {
  t.go('request', async () => {
    try {
      await p.a.sink(req)
    } catch {}
  })
  return p.a.source as any
}

// basic: the whole path with a handler that exchanges data.
const basic: Scenario = {
  prop: 'P26', name: 'data', quick: 8, thorough: 14, weight: 2,
  doc: 'data both ways over a nested stream, with and without waiting for the ack, with every end: nothing lost, repeated or reordered',
  main: async (t) => {
    const p = new Pair<any>(t, 'p', false)
    const waitAck = t.bool()
    const up = t.of([], [bytes(1)], [bytes(), bytes(2, 3)])
    const down = t.of([], [bytes(4)], [bytes(), bytes(5)])
    const how = t.of('', 'opener fails', 'handler fails', 'lost')
    const got: string[][] = [[], []]
    const ends: (string | null)[] = [null, null]
    const read = async (i: number, s: any) => {
      try {
        for await (const b of s.source) got[i].push(hex(b))
        ends[i] = ''
      } catch (e: any) {
        ends[i] = e.message
      }
    }
    let asked = ''
    t.go('server', async () => {
      const handler = async (s: any) => {
        const rd = read(0, s)
        await s.sink(
          (async function* () {
            for (const b of down) {
              await step(t, 'down')
              yield b
            }
          })(),
        )
        await rd
      }
      const getter = async (id: string) => {
        asked += '/' + id
        await step(t, 'lookup')
        return how === 'handler fails'
          ? async (s: any) => {
              void s
              throw new Error('handler')
            }
          : handler
      }
      try {
        await p.b.sink(handleRpcStream(p.b.source, getter as any))
      } catch {}
    })
    if (how === 'lost') t.event('', 'lose', () => p.fail(new Error('network')))
    let s: any
    try {
      s = await openRpcStream('comp', caller(t, p), waitAck)
    } catch (e: any) {
      if (how !== 'lost') t.failf('opening failed: ' + e.message)
      return
    }
    t.go('reader', () => read(1, s))
    t.go('writer', () =>
      s.sink(
        (async function* () {
          for (const b of up) {
            await step(t, 'up')
            yield b
          }
          if (how === 'opener fails') throw new Error('opener')
        })(),
      ),
    )
    await t.idle()
    if (how !== 'lost' && asked !== '/comp') t.failf('the component asked for was ' + asked)
    const want = [up.map(hex), down.map(hex)]
    for (const i of [0, 1]) {
      if (!got[i].every((x, k) => x === want[i][k])) t.failf(`side ${i} received [${got[i]}] of [${want[i]}]`)
      if (ends[i] === null && !(i === 0 && how === 'handler fails') && !(i === 0 && how === 'lost')) t.failf(`side ${i} waits forever`)
      if (!how && (ends[i] !== '' || got[i].length !== want[i].length)) t.failf(`side ${i} received [${got[i]}] of [${want[i]}] and ${ends[i]}`)
    }
    if (how === 'opener fails' && !ends[0]) t.failf('the handler saw the end of a stream whose writer failed')
    if (how === 'handler fails' && !ends[1]) t.failf('the opener saw the end of a stream whose handler failed')
    if (how === 'lost' && ends[1] === '' && got[1].length !== want[1].length) t.failf('the opener saw the end of a lost stream')
    t.outcome(got.join(' ') + ' ' + ends)
  },
}

// openings: what opener and handler make of every beginning.
const openings: Scenario = {
  prop: 'P26', name: 'openings', quick: 0, thorough: 0,
  doc: 'every sequence of packets to the opener that waits for the ack, and to one that does not: its error or the data after it',
  main: async (t) => {
    const pool: [string, any][] = [
      ['ack', ack()], ['ack!', ack('refused')], ['data1', data(1)], ['data', data()], ['init', init('x')], ['none', none],
    ]
    const list: [string, any][] = []
    const max = t.tier === 'thorough' ? 5 : 4
    for (let i = 0; i < max; i++) {
      const k = t.choose(pool.length + 1)
      if (k === 0) break
      list.push(pool[k - 1])
    }
    const fails = t.bool()
    const waitAck = t.bool()
    const sent: string[] = []
    let err = ''
    const got: string[] = []
    const c: any = (req: any) => {
      t.go('requests', async () => {
        try {
          for await (const r of req) sent.push(show(r))
        } catch (e: any) {
          sent.push('!' + e.message)
        }
      })
      return (async function* () {
        for (const [, x] of list) yield x
        if (fails) throw new Error('network')
      })()
    }
    let s: any
    try {
      s = await openRpcStream('comp', c, waitAck)
      for await (const b of s.source) got.push(hex(b))
      err = 'end'
    } catch (e: any) {
      err = e.message
    }
    if (s) await s.sink([bytes(7)])
    await t.idle()
    // the model
    let want = ''
    const in_: string[] = []
    let i = 0
    let opened = true
    if (waitAck) {
      i = 1
      opened = false
      if (!list.length) want = fails ? 'network' : 'rpcstream: closed before ack packet'
      else if (list[0][0] === 'ack!') want = 'rpcstream: remote: refused'
      else if (list[0][0] !== 'ack') want = 'rpcstream: expected ack packet but got ' + (list[0][1].body?.case ?? 'none')
      else opened = true
    }
    if (opened) {
      want = fails ? 'network' : 'end'
      for (; i < list.length; i++) {
        const [n, x] = list[i]
        if (n === 'ack!') {
          want = 'refused'
          break
        }
        if (x.body?.case === 'data') in_.push(hex(x.body.value))
      }
    }
    const wantSent = ['init:comp', opened ? 'data:07' : '!' + want]
    const a = `${err} [${got}] sent [${sent}]`
    const w = `${want} [${in_}] sent [${wantSent}]`
    if (a !== w) t.failf(`${list.map((x) => x[0])}: ${a}, expected ${w}`)
    t.outcome(err)
  },
}

const handling: Scenario = {
  prop: 'P26', name: 'handling', quick: 0, thorough: 0,
  doc: 'every beginning of a nested stream, and every answer of the lookup: one ack, with the error if there is one, and then the handler',
  main: async (t) => {
    const first = t.of('comp', '', 'data', 'ack', 'none', 'end', 'fails')
    const look = t.of('found', 'null', 'undefined', 'throws', 'string', 'nothing')
    const rest = t.of([], [data(1)], [none, data(2)], [init('again'), data(3)])
    const does = t.of('echo', 'throws', 'sync')
    const asked: string[] = []
    const got: string[] = []
    async function* rx() {
      if (first === 'end') return
      if (first === 'fails') throw new Error('network')
      yield first === 'data' ? data(9) : first === 'ack' ? ack() : first === 'none' ? none : init(first)
      yield* rest
    }
    const out: string[] = []
    let err = ''
    const getter = async (id: string) => {
      asked.push(id)
      if (look === 'throws') throw new Error('no')
      if (look === 'string') throw 'no'
      if (look === 'nothing') throw undefined
      if (look !== 'found') return null
      return async (s: any) => {
        if (does === 'throws') throw new Error('handler')
        await s.sink(
          (async function* () {
            for await (const b of s.source) {
              got.push(hex(b))
              yield b
            }
          })(),
        )
      }
    }
    try {
      for await (const p of handleRpcStream(rx() as any, getter as any)) out.push(show(p))
      err = 'end'
    } catch (e: any) {
      err = e.message
    }
    await t.idle()
    let want = ''
    const datas = rest.filter((r: any) => r.body?.case === 'data').map(show)
    let wout: string[] = []
    const good = first === 'comp' || first === ''
    if (first === 'end') want = 'closed before init received'
    else if (first === 'fails') want = 'network'
    else if (!good) want = 'expected init packet'
    else {
      const e = { found: '', null: 'not implemented', undefined: 'not implemented', throws: 'no', string: 'rpc getter failed: no', nothing: 'rpc getter failed' }[look]!
      wout = ['ack:' + e]
      want = e
      if (!e) {
        if (does === 'throws') want = 'handler'
        else {
          want = 'end'
          wout.push(...datas)
        }
      }
    }
    const wasked = good ? [first] : []
    const a = `${err} [${out}] asked [${asked}]`
    const w = `${want} [${wout}] asked [${wasked}]`
    if (a !== w) t.failf(`${first} ${look} ${does}: ${a}, expected ${w}`)
    t.outcome(a)
  },
}

// nested: whole calls inside a call of the repository's echo service.
function nested(k: string): Scenario {
  return {
    prop: 'P26', name: 'nested-' + k.toLowerCase(), quick: 4, thorough: 7, weight: 2,
    doc: 'a ' + k + ' call through a nested stream of the echo service, answered, failed, aborted or unknown: result, and both calls end',
    main: async (t) => {
      const p = new Pair(t, 'p', t.bool())
      const how = t.of('', 'boom', 'abort', 'lost', 'no server', 'unknown')
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      const streaming = k === 'Client' || k === 'Bidi'
      const ins = streaming ? t.of([], [4, 0]) : [3]
      const outs = k === 'Unary' || k === 'Client' ? [7] : t.of([], [8, 0])
      const inner = createMux()
      inner.register(createHandler(definition, impl(t, seen, outs, how === 'boom' ? 'boom' : '')))
      const outer = createMux()
      outer.register(createHandler(EchoerDefinition as any, new EchoerServer(how === 'no server' ? undefined : new Server(inner.lookupMethod))))
      new Server(outer.lookupMethod).handlePacketStream(p.b)
      const echo = new EchoerClient(new Client(async () => p.a))
      const c = new Client(buildRpcStreamOpenStream('test', echo.RpcStream))
      const ac = new AbortController()
      let at = false
      if (how === 'abort' || how === 'lost')
        t.event('', how, () => {
          at = true
          if (how === 'abort') ac.abort()
          else p.fail(new Error('network'))
        })
      const r: Result = await call(c, k, streaming ? feed(t, 'in', ins) : ins[0], ac.signal, 'svc', how === 'unknown' ? 'Nope' : k)
      const s = r.got.join(',') + (r.err ? '!' + r.err : '')
      if (!prefix(r.got, outs)) t.failf(`the caller got [${r.got}] of [${outs}]`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received [${seen.reqs}] of [${ins}]`)
      if (!r.err && r.got.length !== outs.length) t.failf(`the call ended without an error after [${r.got}] of [${outs}]`)
      if (!how && r.err) t.failf('the call failed: ' + r.err)
      if (how === 'boom' && r.err !== 'boom') t.failf('the caller got ' + s)
      if (how === 'unknown' && r.err !== 'not found: svc/Nope') t.failf('the caller got ' + s)
      if (how === 'no server' && r.err !== 'rpc stream proxy server not set') t.failf('the caller got ' + s)
      if ((how === 'abort' || how === 'lost') && r.err && !at) t.failf('the call failed on its own: ' + r.err)
      await t.idle()
      if (seen.calls && !seen.end && !seen.err) t.failf('the handler still waits for requests')
      const rel = p.released()
      if (rel) t.failf(rel)
      t.outcome(how + ' ' + s)
    },
  }
}

const source: Scenario = {
  prop: 'P26', name: 'wire', quick: 0, thorough: 0,
  doc: 'the encoding of every packet of a nested stream is the one rpcstream.proto prescribes',
  main: async (t) => {
    const f = (no: number, ...b: number[]) => [(no << 3) | 2, b.length, ...b]
    const [p, w] = t.of<[any, number[]]>(
      [init('c'), f(1, ...f(1, 99))], [init(''), f(1)], [ack(), f(2)], [ack('e'), f(2, ...f(1, 101))], [data(5, 6), f(3, 5, 6)],
      [data(), f(3)], [none, []],
    )
    const b = RpcStreamPacket.toBinary(p)
    if (hex(b) !== hex(bytes(...w))) t.failf(`encoded ${hex(b)}, expected ${hex(bytes(...w))}`)
    if (hex(RpcStreamPacket.toBinary(RpcStreamPacket.fromBinary(b))) !== hex(b)) t.failf('decoding lost something of ' + hex(b))
    // what RpcStream writes
    const tx = pushable<any>({ objectMode: true })
    const s = new RpcStream(tx, (async function* () {})() as any)
    await s.sink([bytes(5, 6), bytes()] as any)
    const o: string[] = []
    for await (const x of tx) o.push(show(x))
    if (o.join() !== 'data:0506,data:') t.failf('the stream wrote ' + o)
  },
}

const odd = ['', 'c', 'C', ' ', ' c', 'c ', 'c\n', 'c\0', '/', '//', '/c', 'c/', 'c//d', 'c/./d', './c', 'c.', '.', 'c?x', '%63', '*', 'null', 'undefined', '0', '__proto__',
  '\u00e9', 'e\u0301', '\u{1f600}', 'x'.repeat(127), 'x'.repeat(128), 'x'.repeat(70000)]
const ids: Scenario = {
  prop: 'P26', name: 'ids', quick: 0, thorough: 2,
  doc: 'component IDs that differ only in case, blanks, slashes, dots, normalization or length: announced and looked up unaltered',
  main: async (t) => {
    const id = t.of(...odd)
    const p = new Pair<any>(t, 'p', false)
    const waitAck = t.bool()
    const asked: string[] = []
    t.go('server', () =>
      p.b.sink(
        (async function* () {
          for await (const x of handleRpcStream(
            (async function* () {
              for await (const b of p.b.source) yield RpcStreamPacket.fromBinary(b)
            })() as any,
            (async (i: string) => {
              asked.push(i)
              return async (s: any) => s.sink([bytes(7)])
            }) as any,
          ))
            yield RpcStreamPacket.toBinary(x as any)
        })(),
      ),
    )
    const s = await openRpcStream(
      id,
      (req: any) => {
        t.go('request', () =>
          p.a.sink(
            (async function* () {
              for await (const x of req) yield RpcStreamPacket.toBinary(x)
            })(),
          ),
        )
        return (async function* () {
          for await (const b of p.a.source) yield RpcStreamPacket.fromBinary(b)
        })() as any
      },
      waitAck,
    )
    let got = ''
    for await (const b of s.source) {
      got += hex(b as any)
      break
    }
    void s.sink([] as any)
    await t.idle()
    if (asked.length !== 1 || asked[0] !== id) t.failf(`${JSON.stringify(id.slice(0, 20))} (${id.length}): asked for ${JSON.stringify(asked.map((x) => x.slice(0, 20)))}`)
    if (got !== '07') t.failf('received ' + got)
    t.outcome(String(waitAck))
  },
}

export const p26: Scenario[] = [ids, basic, openings, handling, ...kinds.map(nested), source]
