// Long runs and long pauses: what no single call shows (P23, P25, P26, P27, P29, P31)
import { Scenario, T } from './engine'
import { Client } from '@repo/srpc/client'
import { Server } from '@repo/srpc/server'
import { StreamConn } from '@repo/srpc/conn'
import { ChannelStream, newBroadcastChannelStream } from '@repo/srpc/channel'
import { parseLengthPrefixTransform, prependLengthPrefixTransform } from '@repo/srpc/packet'
import { handleRpcStream, openRpcStream } from '@repo/rpcstream/rpcstream'
import { bytes, call, dec, enc, hex, kinds, Pair, Result, serverOf } from './lib'
import { channels, ports } from './ports'

const streaming = (k: string) => k === 'Client' || k === 'Bidi'
const manyOut = (k: string) => k === 'Server' || k === 'Bidi'
const second = 1000
const hour = 3600 * second
const pauses = [second, 31 * second, 61 * second, 301 * second, hour + 1, 25 * hour]
const counts = [70, 300, 1100]
const seq = (n: number) => Array.from({ length: n }, (_, i) => i % 251)
export const pause = (ms: number) => new Promise<void>((r) => (ms ? setTimeout(r, ms) : r()))
const brief = (l: any[]) => `${l.length} (${l.slice(0, 4)}..${l.slice(-2)})`

// same says where two lists differ.
function same(got: any[], want: any[]): string {
  for (let i = 0; i < got.length || i < want.length; i++) if (got[i] !== want[i]) return `${brief(got)} of ${brief(want)}: item ${i} is ${got[i]} and not ${want[i]}`
  return ''
}

async function* numbers(n: number, gap = 0, first = 0, last = 0): AsyncGenerator<Uint8Array> {
  await pause(first)
  for (const x of seq(n)) {
    if (x) await pause(gap)
    yield enc(x)
  }
  await pause(last)
}

interface Slow {
  first: number // before a side says or reads anything
  gap: number // between two messages
  last: number // before it ends
}
const quick: Slow = { first: 0, gap: 0, last: 0 }

// service reads and answers slowly.
function service(n: number, rd: Slow, wr: Slow, got: number[], state: { end: boolean; err?: string }) {
  const drain = async (reqs: AsyncIterable<any>) => {
    try {
      await pause(rd.first)
      for await (const r of reqs) {
        got.push(r.n)
        await pause(rd.gap)
      }
      await pause(rd.last)
      state.end = true
    } catch (e: any) {
      state.err = e?.message
      throw e
    }
  }
  async function* answers() {
    await pause(wr.first)
    for (const x of seq(n)) {
      if (x) await pause(wr.gap)
      yield { n: x }
    }
    await pause(wr.last)
  }
  return {
    Unary: async (r: any) => {
      got.push(r.n)
      state.end = true
      await pause(wr.first)
      return { n: 7 }
    },
    Server: (r: any) => {
      got.push(r.n)
      state.end = true
      return answers()
    },
    Client: async (reqs: any) => {
      await drain(reqs)
      await pause(wr.first)
      return { n: 7 }
    },
    // both directions at the same time
    Bidi: async function* (reqs: any) {
      const d = drain(reqs)
      d.catch(() => {})
      yield* answers()
      await d
    },
  }
}

// talk makes a call whose sides have the given pace and checks everything.
async function talk(t: T, k: string, n: number, caller: Slow, callerReads: Slow, rd: Slow, wr: Slow) {
  const p = new Pair(t, 'p', t.bool())
  const got: number[] = []
  const state: { end: boolean; err?: string } = { end: false }
  serverOf(service(n, rd, wr, got, state)).handlePacketStream(p.b)
  const c = new Client(async () => p.a)
  const out: number[] = []
  const input = numbers(n, caller.gap, caller.first, caller.last)
  const read = async (it: AsyncIterable<Uint8Array>) => {
    await pause(callerReads.first)
    for await (const m of it) {
      out.push(dec(m))
      await pause(callerReads.gap)
    }
  }
  try {
    if (k === 'Unary') out.push(dec(await c.request('svc', k, enc(3))))
    else if (k === 'Client') out.push(dec(await c.clientStreamingRequest('svc', k, input)))
    else if (k === 'Server') await read(c.serverStreamingRequest('svc', k, enc(3)))
    else await read(c.bidirectionalStreamingRequest('svc', k, input))
  } catch (e: any) {
    t.failf('the call failed: ' + e.message)
  }
  await t.idle()
  const d = same(got, streaming(k) ? seq(n) : [3])
  if (d) t.failf('the handler received ' + d)
  const e = same(out, manyOut(k) ? seq(n) : [7])
  if (e) t.failf('the caller received ' + e)
  if (!state.end || state.err) t.failf('the handler did not see the end of the requests: ' + state.err)
  const rel = p.released()
  if (rel) t.failf(rel)
}

const backlog = (k: string): Scenario => ({
  prop: 'P23', name: k.toLowerCase() + '-backlog', quick: 0, thorough: 1, weight: 3,
  doc: `a ${k} call with 70, 300 and 1100 messages each way, read at once or all of them late: nothing lost, nothing out of order`,
  main: async (t) => {
    const n = t.of(...counts)
    const late: Slow = { first: hour, gap: 0, last: 0 }
    await talk(t, k, n, quick, t.of(quick, late), t.of(quick, late), quick)
    t.outcome('' + n)
  },
})

const slow = (k: string): Scenario => ({
  prop: 'P23', name: k.toLowerCase() + '-slow', quick: 1, thorough: 2, weight: 2,
  doc: `a ${k} call without a deadline, one side of which pauses for seconds to a day at any point: it is not given up`,
  main: async (t) => {
    const p = t.of(...pauses)
    const at = t.of<Slow>({ first: p, gap: 0, last: 0 }, { first: 0, gap: p, last: 0 }, { first: 0, gap: 0, last: p })
    const who = t.choose(4)
    const l = [0, 1, 2, 3].map((i) => (i === who ? at : quick))
    await talk(t, k, 3, l[0], l[1], l[2], l[3])
    t.outcome('' + p)
  },
})

const answerOf = (n: number) => (n * 7 + 3) % 251
// adders answers every request with its own answer, however many calls are under way.
function adders(seen: Map<string, number>, gap: number): any {
  const saw = (k: string, n: number) => seen.set(k + n, (seen.get(k + n) ?? 0) + 1)
  const first = async (reqs: any) => {
    let f = -1
    for await (const r of reqs) if (f < 0) f = r.n
    return f
  }
  return {
    Unary: async (r: any) => {
      saw('Unary', r.n)
      await pause(gap)
      return { n: answerOf(r.n) }
    },
    Server: async function* (r: any) {
      saw('Server', r.n)
      yield { n: answerOf(r.n) }
      await pause(gap)
      yield { n: r.n }
    },
    Client: async (reqs: any) => {
      const n = await first(reqs)
      saw('Client', n)
      await pause(gap)
      return { n: answerOf(n) }
    },
    Bidi: async function* (reqs: any) {
      const n = await first(reqs)
      saw('Bidi', n)
      yield { n: answerOf(n) }
      await pause(gap)
      yield { n }
    },
  }
}

// series makes many calls with a client and checks each of them.
async function series(t: T, c: Client, n: number, ks: string[], together: boolean, gap: number, seen: Map<string, number>) {
  const one = async (i: number) => {
    const k = ks[i % ks.length]
    const x = i % 251
    const r: Result = await call(c, k, streaming(k) ? (async function* () { yield enc(x) })() : x)
    const want = manyOut(k) ? [answerOf(x), x] : [answerOf(x)]
    if (r.err || r.got.join() !== want.join()) t.failf(`call ${i} of ${n} (${k}) got [${r.got}] ${r.err ?? ''}, expected [${want}]`)
  }
  if (together) await Promise.all(Array.from({ length: n }, (_, i) => one(i)))
  else
    for (let i = 0; i < n && !t.fail; i++) {
      await one(i)
      await pause(gap)
    }
  const want = new Map<string, number>()
  for (let i = 0; i < n; i++) {
    const k = ks[i % ks.length] + (i % 251)
    want.set(k, (want.get(k) ?? 0) + 1)
  }
  for (const [k, v] of want) if (seen.get(k) !== v) t.failf(`the handler of ${k} ran ${seen.get(k) ?? 0} times and not ${v}`)
}

const many: Scenario = {
  prop: 'P23', name: 'many-calls', quick: 0, thorough: 1, weight: 3,
  doc: '20, 70 or 300 calls of one kind or of all kinds with one client and one server, one after the other (also a minute apart) or at once: each gets its own answer, all streams are released',
  main: async (t) => {
    const n = t.of(20, 70, 300)
    const ks = t.of(kinds, ...kinds.map((k) => [k]))
    const how = t.of('together', 'in turn', 'apart')
    const seen = new Map<string, number>()
    const s = serverOf(adders(seen, t.of(0, 61 * second)))
    const ps: Pair[] = []
    const c = new Client(async () => {
      const p = new Pair(t, 'p' + ps.length + '/')
      ps.push(p)
      s.handlePacketStream(p.b)
      return p.a
    })
    await series(t, c, n, ks, how === 'together', how === 'apart' ? 61 * second : 0, seen)
    await t.idle()
    if (ps.length !== n) t.failf(`${n} calls opened ${ps.length} streams`)
    for (const p of ps) {
      const rel = p.released()
      if (rel) t.failf(rel)
    }
    t.outcome('' + n)
  },
}

const frames: Scenario = {
  prop: 'P25', name: 'many-frames', quick: 0, thorough: 0,
  doc: '1 to 3000 frames of every size up to 20 bytes or one large one, cut into chunks of any one length: nothing lost, nothing out of order; and each frame as soon as it is complete',
  main: async (t) => {
    const n = t.of(1, 20, 70, 257, 300, 1100, 3000)
    const size = t.of(0, 1, 3, 20, -1)
    const cut = t.of(1, 2, 3, 4, 5, 7, 16, 64, 100, 1023, 1024, 4096, 65536, 1 << 20)
    const late = t.bool()
    if (late && n * Math.max(size, 5) > 150 * cut) return
    if (n * Math.max(size, 5) > (t.tier === 'thorough' ? 4000 : 800) * cut) return
    const msgs = Array.from({ length: n }, (_, i) => new Uint8Array(size < 0 ? (i === n - 1 ? 70000 : i % 7) : size).fill(i % 256))
    const parts: Uint8Array[] = []
    async function* src() {
      yield* msgs
    }
    for await (const m of prependLengthPrefixTransform()(src())) parts.push((m as any).subarray())
    const all = new Uint8Array(Buffer.concat(parts))
    let fed = 0
    async function* chunked() {
      for (let i = 0; i < all.length; i += cut) {
        const c = all.slice(i, i + cut)
        fed = i + c.length
        yield c
        if (late) await pause(second)
      }
    }
    let i = 0
    let at = 0
    for await (const m of parseLengthPrefixTransform()(chunked())) {
      const b = (m as any).subarray() as Uint8Array
      at += 4 + b.length
      if (i >= n || Buffer.compare(b, msgs[i])) return t.failf(`frame ${i} of ${n} (size ${size}, chunks of ${cut}) is ${hex(b).slice(0, 40)}`)
      // complete when the chunk that holds its last byte is there
      if (late && fed > at + cut) return t.failf(`frame ${i} of ${n} (size ${size}, chunks of ${cut}) came after ${fed} bytes`)
      i++
    }
    if (i !== n) t.failf(`${i} of ${n} frames (size ${size}, chunks of ${cut})`)
  },
}

// nested data
function nestedRun(name: string, doc: string, q: number, th: number, pick: (t: T) => { n: number; w: Slow; r: Slow; look: number; ack: boolean }): Scenario {
  return {
    prop: 'P26', name, doc, quick: q, thorough: th, weight: 2,
    main: async (t) => {
      const { n, w, r, look, ack } = pick(t)
      const p = new Pair<any>(t, 'p', false)
      const got: number[][] = [[], []]
      const ends = ['?', '?']
      const write = (s: any) =>
        s.sink(
          (async function* () {
            await pause(w.first)
            for (const x of seq(n)) {
              if (x) await pause(w.gap)
              yield bytes(x)
            }
            await pause(w.last)
          })(),
        )
      const read = async (i: number, s: any) => {
        try {
          await pause(r.first)
          for await (const b of s.source) {
            got[i].push(b[0])
            await pause(r.gap)
          }
          ends[i] = ''
        } catch (e: any) {
          ends[i] = e.message
        }
      }
      t.go('server', async () => {
        await p.b.sink(
          handleRpcStream(p.b.source, (async () => {
            await pause(look)
            return async (s: any) => {
              const rd = read(0, s)
              await write(s)
              await rd
            }
          }) as any),
        )
      })
      const s: any = await openRpcStream(
        'comp',
        (req: any) => {
          t.go('request', () => p.a.sink(req))
          return p.a.source as any
        },
        ack,
      )
      t.go('reader', () => read(1, s))
      t.go('writer', () => write(s))
      await t.idle()
      for (const i of [0, 1]) {
        const d = same(got[i], seq(n))
        if (d || ends[i]) t.failf(`side ${i} received ${d} and ended with "${ends[i]}"`)
      }
      t.outcome('' + n)
    },
  }
}

const late: Slow = { first: hour, gap: 0, last: 0 }
const nestedBacklog = nestedRun('backlog', '70, 300 and 1100 messages each way over a nested stream, read at once or all of them late', 0, 1, (t) => ({
  n: t.of(...counts), w: quick, r: t.of(quick, late), look: 0, ack: t.bool(),
}))
const nestedSlow = nestedRun('slow', 'a nested stream whose lookup, writer or reader pauses for seconds to a day: it is not given up', 1, 2, (t) => {
  const p = t.of(...pauses)
  const at = t.of<Slow>({ first: p, gap: 0, last: 0 }, { first: 0, gap: p, last: 0 }, { first: 0, gap: 0, last: p })
  const who = t.choose(3)
  return { n: 3, w: who === 0 ? at : quick, r: who === 1 ? at : quick, look: who === 2 ? p : 0, ack: t.bool() }
})

// channels
function channelRun(kind: 'port' | 'channel', name: string, doc: string, q: number, th: number, pick: (t: T) => { n: number; w: Slow; r: Slow; make: number; opts?: any }): Scenario {
  return {
    prop: 'P27', name: kind + '-' + name, doc, quick: q, thorough: th, weight: 2,
    main: async (t) => {
      const { n, w, r, make, opts } = pick(t)
      let mk: ((o?: any) => any)[]
      if (kind === 'port') {
        const [a, b] = ports(t)
        mk = [(o) => new ChannelStream<Uint8Array>('a', a as any, o), (o) => new ChannelStream<Uint8Array>('b', b as any, o)]
      } else {
        channels(t)
        mk = [(o) => newBroadcastChannelStream<Uint8Array>('a', 'ba', 'ab', o), (o) => newBroadcastChannelStream<Uint8Array>('b', 'ab', 'ba', o)]
      }
      const got: number[][] = [[], []]
      const ends = ['?', '?']
      for (const i of [0, 1])
        t.go('end' + i, async () => {
          if (i === 1) await pause(make)
          const s = mk[i](opts)
          t.go('write' + i, () =>
            s.sink(
              (async function* () {
                await pause(w.first)
                for (const x of seq(n)) {
                  if (x) await pause(w.gap)
                  yield bytes(x)
                }
                await pause(w.last)
              })(),
            ),
          )
          t.go('read' + i, async () => {
            try {
              await pause(r.first)
              for await (const b of s.source) {
                got[i].push(b[0])
                await pause(r.gap)
              }
              ends[i] = ''
            } catch (e: any) {
              ends[i] = e.message
            }
          })
        })
      await t.idle()
      for (const i of [0, 1]) {
        const d = same(got[i], seq(n))
        if (d || ends[i]) t.failf(`side ${i} received ${d} and ended with "${ends[i]}"`)
      }
      t.outcome('' + n)
    },
  }
}
const channelRuns = (['port', 'channel'] as const).flatMap((k) => [
  channelRun(k, 'backlog', `70, 300 and 1100 messages each way over a ${k}, read at once or all of them late`, 0, 1, (t) => ({ n: t.of(...counts), w: quick, r: t.of(quick, late), make: 0 })),
  channelRun(k, 'slow', `a stream over a ${k} without an idle timeout whose other end is made late, or whose writer or reader pauses, for seconds to a day: it stays open`, 1, 2, (t) => {
    const p = t.of(...pauses)
    const at = t.of<Slow>({ first: p, gap: 0, last: 0 }, { first: 0, gap: p, last: 0 }, { first: 0, gap: 0, last: p })
    const who = t.choose(3)
    return { n: 3, w: who === 0 ? at : quick, r: who === 1 ? at : quick, make: who === 2 ? p : 0 }
  }),
])

// connections
const connected: Scenario = {
  prop: 'P29', name: 'many-calls', quick: 0, thorough: 0, weight: 2,
  doc: '20, 70 or 300 calls of all kinds over one connection, at once, in turn or hours apart, from either side: each gets its own answer, no stream stays',
  main: async (t) => {
    const n = t.of(20, 70, 300)
    const how = t.of('together', 'in turn', 'apart')
    const from = t.choose(2)
    const seen = new Map<string, number>()
    const srv: (Server | undefined)[] = [undefined, undefined]
    srv[1 - from] = serverOf(adders(seen, t.of(0, hour + 1)))
    const p = new Pair<any>(t, 'p')
    const conns = [new StreamConn(srv[0]), new StreamConn(srv[1], { direction: 'inbound' })]
    ;[p.a, p.b].forEach((e, i) => {
      t.go('pipe' + i, async () => {
        const c = conns[i]
        try {
          await Promise.all([
            c.sink((async function* () { for await (const x of e.source) yield x.subarray ? x.subarray() : x })() as any),
            e.sink((async function* () { for await (const x of c.source) yield (x as any).subarray() })()),
          ])
        } catch (err: any) {
          c.close(err)
        }
        c.close()
      })
    })
    await series(t, conns[from].buildClient(), n, kinds, how === 'together', how === 'apart' ? hour : 0, seen)
    const settled = pause(1).then(() => {
      for (const i of [0, 1]) if (conns[i].streams.length) t.failf(`side ${i} keeps ${conns[i].streams.length} streams`)
      conns[0].close()
    })
    await settled
    await t.idle()
    const rel = p.released()
    if (rel) t.failf(rel)
    t.outcome('' + n)
  },
}

export const long: Scenario[] = [
  ...kinds.filter((k) => k !== 'Unary').map(backlog), ...kinds.map(slow), many, frames, nestedBacklog, nestedSlow, ...channelRuns, connected,
]
