// P27: TypeScript message channels: streams over MessagePort and BroadcastChannel, timeouts, values that come later
import { Scenario, T } from './engine'
import { channels, FakeChannel, FakePort, ports } from './ports'
import { ChannelStream, newBroadcastChannelStream } from '@repo/srpc/channel'
import { MessagePortDuplex, newMessagePortDuplex } from '@repo/srpc/message-port'
import { newBroadcastChannelDuplex } from '@repo/srpc/broadcast-channel'
import { Watchdog } from '@repo/srpc/watchdog'
import { ValueCtr } from '@repo/srpc/value-ctr'
import { OpenStreamCtr } from '@repo/srpc/open-stream-ctr'
import { HandleStreamCtr } from '@repo/srpc/handle-stream-ctr'
import { buildPushableSink, writeToPushable } from '@repo/srpc/pushable'
import { ERR_STREAM_IDLE } from '@repo/srpc/errors'
import { pushable } from 'it-pushable'
import { bytes, hex, step } from './lib'

type Kind = 'port' | 'channel'

// channelPair makes the two ends of a ChannelStream, each when make is called.
function channelPair(t: T, kind: Kind) {
  if (kind === 'port') {
    const [a, b] = ports(t)
    return [(o?: any) => new ChannelStream<Uint8Array>('a', a as any, o), (o?: any) => new ChannelStream<Uint8Array>('b', b as any, o)]
  }
  channels(t)
  return [
    (o?: any) => newBroadcastChannelStream<Uint8Array>('a', 'ba', 'ab', o), (o?: any) => newBroadcastChannelStream<Uint8Array>('b', 'ab', 'ba', o),
  ]
}

async function* list(t: T, name: string, l: Uint8Array[], err?: string) {
  for (const b of l) {
    await step(t, name)
    yield b
  }
  if (err) throw new Error(err)
}

function exchange(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-stream', quick: 7, thorough: 10, weight: 2,
    doc: 'two ends of a stream over a ' + kind + ', made at any time: data both ways in order, then its end or error',
    main: async (t) => {
      const make = channelPair(t, kind)
      const out = [t.of([], [bytes(1)], [bytes(), bytes(2)]), t.of([], [bytes(3), bytes(4, 5)])]
      const fails = t.bool()
      const got: string[][] = [[], []]
      const ends: (string | null)[] = [null, null]
      const wrote = [false, false]
      const early: string[] = []
      for (const i of [0, 1]) {
        t.go('end' + i, async () => {
          await step(t, 'make' + i)
          const s: any = make[i]()
          t.go('write' + i, async () => {
            await s.sink(
              (async function* () {
                if (!s.isOpen || !s.isAcked) early.push('data')
                yield* list(t, 'out' + i, out[i], fails && i === 0 ? 'writer' : undefined)
              })(),
            )
            wrote[i] = true
          })
          t.go('read' + i, async () => {
            try {
              for await (const b of s.source) got[i].push(hex(b))
              ends[i] = ''
            } catch (e: any) {
              ends[i] = e.message
            }
          })
        })
      }
      await t.idle()
      for (const i of [0, 1]) {
        const want = out[1 - i].map(hex)
        if (fails && i === 1) {
          if (ends[i] !== 'writer' || !got[i].every((x, k) => x === want[k])) t.failf(`side ${i} received [${got[i]}] of [${want}] and ${ends[i]}`)
        } else if (got[i].join() !== want.join() || ends[i] !== '') t.failf(`side ${i} received [${got[i]}] of [${want}] and ${ends[i]}`)
        if (!wrote[i]) t.failf(`side ${i} never finished writing`)
      }
      if (early.length) t.failf('data was sent before the stream was open')
      t.outcome(got.join(' ') + ' ' + ends)
    },
  }
}

function closing(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-close', quick: 6, thorough: 8, weight: 2,
    doc: 'one end of a stream over a ' + kind + ' is closed, with or without an error, once or twice, at any time: both ends see it and nobody waits',
    main: async (t) => {
      const make = channelPair(t, kind)
      const err = t.of(undefined, 'closed by user')
      const twice = t.bool()
      const remoteOpen = t.bool()
      const got: string[][] = [[], []]
      const ends: (string | null)[] = [null, null]
      const s: any[] = [make[0]({ remoteOpen }), make[1]({ remoteOpen })]
      const out = [[bytes(1), bytes(2)], [bytes(3)]]
      const finished = [false, false]
      const began = [false, false]
      const werr = ['', '']
      for (const i of [0, 1]) {
        t.go('write' + i, async () => {
          try {
            await s[i].sink(
              (async function* () {
                began[i] = true
                yield* list(t, 'out' + i, out[i])
              })(),
            )
          } catch (e: any) {
            werr[i] = e?.message ?? String(e)
          }
          finished[i] = true
        })
        t.go('read' + i, async () => {
          try {
            for await (const b of s[i].source) got[i].push(hex(b))
            ends[i] = ''
          } catch (e: any) {
            ends[i] = e.message
          }
        })
      }
      let both = false
      t.event('', 'close', () => {
        both = finished[0] && ends[1] !== null
        s[0].close(err ? new Error(err) : undefined)
        if (twice) s[0].close()
      })
      await t.idle()
      for (const i of [0, 1]) {
        if (ends[i] === null) t.failf(`side ${i} reads forever`)
        if (!got[i].every((x, k) => x === hex(out[1 - i][k]))) t.failf(`side ${i} received [${got[i]}]`)
      }
      if (err && !both && ends[1] !== err && got[1].length !== 2) t.failf(`the other side saw ${ends[1]} instead of the error`)
      if (ends[0] !== (err ?? '') && ends[0] !== '') t.failf('the closing side saw ' + ends[0])
      // the other side may still wait to be opened: closing it too ends that
      s[1].close()
      await t.idle()
      if (!finished[0] || !finished[1]) t.failf('a writer waits forever: ' + finished)
      // who has not written anything does not believe to have written all
      for (const i of [0, 1]) if (!began[i] && !werr[i]) t.failf(`side ${i} wrote nothing and saw no error`)
      if (!began[0] && werr[0] !== (err ?? 'closed')) t.failf(`the writer of the closed side saw ${werr[0]}`)
      for (const p of ['waitRemoteOpen', 'waitRemoteAck'])
        for (const i of [0, 1]) {
          let ok = false
          s[i][p].then(() => (ok = true), () => (ok = true))
          await Promise.resolve()
          await Promise.resolve()
          if (!ok) t.failf(`${p} of side ${i} is never settled`)
        }
      t.outcome(got.join(' ') + ' ' + ends)
    },
  }
}

// idle: timeouts of a stream, with a remote that is alive, silent or gone.
function idle(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-idle', quick: 3, thorough: 6, weight: 2,
    doc: 'keep-alive and idle timeout over a ' + kind + ': a silent remote closes the stream with ERR_STREAM_IDLE when the time is over, and not before; a living one does not; nothing runs on after the close',
    main: async (t) => {
      const make = channelPair(t, kind)
      const idleMs = 100
      const keepMs = t.of(0, 40, 99)
      const s: any[] = [make[0]({ idleTimeoutMs: idleMs }), make[1](keepMs ? { keepAliveMs: keepMs } : {})]
      const sendAt = t.of(0, 30, 150)
      let last = 0
      const a = s[0].channel
      const port = kind === 'port' ? a : a.rx
      const on = port.onmessage
      port.onmessage = (ev: any) => {
        last = t.now
        on(ev)
      }
      let end: string | null = null
      let at = 0
      t.go('read', async () => {
        try {
          for await (const b of s[0].source) void b
          end = ''
        } catch (e: any) {
          end = e.message
        }
        at = t.now
      })
      if (sendAt) t.timer(sendAt, () => s[1].sink(list(t, 'out', [bytes(1)])).catch(() => {}))
      t.go('write', async () => {
        try {
          await s[0].sink(list(t, 'in', [bytes(2)]))
        } catch {}
      })
      const stop = t.of('never', 'remote', 'local')
      let closed = 0
      t.timer(460, () => {
        closed = t.now
        if (end === null && stop === 'local') s[0].close()
        s[1].close()
      })
      t.timer(900, () => s[0].close())
      await t.idle()
      if (end === null) t.failf('the reader waits forever')
      if (end === ERR_STREAM_IDLE) {
        if (at - last < idleMs) t.failf(`idle ${at - last} ms after the last message, not ${idleMs}`)
        if (at - last > idleMs) t.failf(`idle only ${at - last} ms after the last message, not ${idleMs}`)
      } else if (end !== '') t.failf('the stream ended with ' + end)
      else if (last && at - last > idleMs) t.failf(`the stream lived ${at - last} ms after the last message`)
      if (t.timers.size) t.failf('timers are left')
      for (const x of s) for (const w of [x.idleWatchdog, x.keepAlive]) if (w) t.failf('a watchdog is left')
      void closed
      t.outcome(`${keepMs} ${end}`)
    },
  }
}

function duplex(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-duplex', quick: 10, thorough: 14, weight: 2,
    doc: 'a duplex over a ' + kind + ': everything written arrives in order, then the end; the channel is closed once both are done',
    main: async (t) => {
      let d: any[]
      if (kind === 'port') {
        const [a, b] = ports(t)
        d = [newMessagePortDuplex<Uint8Array>(a as any), new MessagePortDuplex<Uint8Array>(b as any)]
      } else {
        channels(t)
        d = [newBroadcastChannelDuplex<Uint8Array>('ba', 'ab'), newBroadcastChannelDuplex<Uint8Array>('ab', 'ba')]
      }
      const out = [t.of([], [bytes(1)], [bytes(), bytes(2)]), t.of([], [bytes(3), bytes(4)])]
      const fails = t.bool()
      const hold = t.bool()
      const got: string[][] = [[], []]
      const ends: (string | null)[] = [null, null]
      const errs: (string | null)[] = [null, null]
      for (const i of [0, 1]) {
        t.go('read' + i, async () => {
          try {
            for await (const b of d[i].source as any) got[i].push(hex(b))
            ends[i] = ''
          } catch (e: any) {
            ends[i] = e.message
          }
        })
        t.go('write' + i, async () => {
          try {
            await d[i].sink(
              (async function* () {
                yield* list(t, 'out' + i, out[i], fails && i === 0 ? 'writer' : undefined)
                // the second side stays until it has seen the end of the first
                if (i === 1 && hold) await t.idle()
              })(),
            )
            errs[i] = ''
          } catch (e: any) {
            errs[i] = e.message
          }
        })
      }
      await t.idle()
      await t.idle()
      await t.idle()
      const want = [out[1].map(hex), out[0].map(hex)]
      for (const i of [0, 1]) if (!got[i].every((x, k) => x === want[i][k])) t.failf(`side ${i} received [${got[i]}] of [${want[i]}]`)
      for (const i of [0, 1]) if (ends[i] === null) t.failf(`side ${i} reads forever`)
      // either side closes the whole channel when it has written all
      if (hold && (got[1].length !== want[1].length || ends[1] !== '')) t.failf(`side 1 received [${got[1]}] of [${want[1]}] and ${ends[1]}`)
      if (errs[0] === null || errs[1] === null) t.failf('a writer waits forever')
      const shut = kind === 'channel' && errs[0]?.startsWith('InvalidState')
      if (errs[0] !== (fails ? 'writer' : '') && !shut) t.failf('writing ended with ' + errs[0])
      if (errs[1] !== '' && kind === 'port') t.failf('writing failed with ' + errs[1])
      for (const i of [0, 1]) if (ends[i]) t.failf('reading failed with ' + ends[i])
      t.outcome(got.join(' ') + ' ' + ends)
    },
  }
}

// any: what is sent need not be bytes.
function any(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-any', quick: 6, thorough: 8,
    doc: 'values of any type over a stream and a duplex on a ' + kind + ', the falsy ones too: every sequence of two',
    main: async (t) => {
      const vals: any[] = [0, '', false, 'x', 7, true]
      const out = [t.of(...vals), t.of(...vals)]
      const stream = t.bool()
      let a: any, b: any
      if (kind === 'port') {
        const [x, y] = ports(t)
        ;[a, b] = stream ? [new ChannelStream<any>('a', x as any), new ChannelStream<any>('b', y as any)] : [newMessagePortDuplex<any>(x as any), newMessagePortDuplex<any>(y as any)]
      } else {
        channels(t)
        ;[a, b] = stream
          ? [newBroadcastChannelStream<any>('a', 'ba', 'ab'), newBroadcastChannelStream<any>('b', 'ab', 'ba')]
          : [newBroadcastChannelDuplex<any>('ba', 'ab'), newBroadcastChannelDuplex<any>('ab', 'ba')]
      }
      const got: any[] = []
      t.go('read', async () => {
        for await (const v of b.source) got.push(v)
      })
      t.go('write', async () => {
        if (stream) t.go('open', () => b.sink([]))
        await step(t, 'start')
        await a.sink(list(t, 'out', out))
      })
      await t.idle()
      if (got.length !== 2 || got.some((v, i) => v !== out[i])) t.failf(`received ${JSON.stringify(got)} of ${JSON.stringify(out)}`)
      t.outcome(JSON.stringify(got))
    },
  }
}

const watchdog: Scenario = {
  prop: 'P27', name: 'watchdog', quick: 0, thorough: 0,
  doc: 'every schedule of feeding and clearing a watchdog, with timers that are on time or early: it expires its timeout after the last feeding, unless it was cleared',
  main: async (t) => {
    const gaps = [30, 70, 99, 101, 150]
    t.skew = t.of(0, 1, 7)
    const n = t.tier === 'thorough' ? 5 : 4
    const fired: number[] = []
    const again = t.bool()
    const w = new Watchdog(100, () => {
      fired.push(t.now)
      if (again && fired.length < 2) w.feed()
    })
    const ops: [number, string][] = []
    let at = 0
    for (let i = 0; i < n; i++) {
      const k = t.choose(3)
      if (k === 0) break
      at += gaps[t.choose(gaps.length)]
      ops.push([at, k === 1 ? 'feed' : 'clear'])
    }
    const t0 = t.now
    for (const [ms, op] of ops) t.timer(ms, () => (op === 'feed' ? w.feed() : w.clear()))
    await t.idle()
    // the model
    const want: number[] = []
    let due: number | null = null
    const until = (ms: number) => {
      while (due !== null && due < ms) {
        want.push(due)
        due = again && want.length < 2 ? due + 100 : null
      }
    }
    for (const [ms, op] of ops) {
      until(ms)
      due = op === 'feed' ? ms + 100 : null
    }
    until(Infinity)
    const f = fired.map((x) => x - t0)
    if (f.join() !== want.join()) t.failf(`${ops.join(' ')}: expired at [${f}], expected [${want}]`)
    t.outcome(f.join())
  },
}

const values: Scenario = {
  prop: 'P27', name: 'values', quick: 0, thorough: 0,
  doc: 'every sequence of setting, unsetting and waiting for a value: each waiter gets the value there is, or the next one, once',
  main: async (t) => {
    const kind = t.of('value', 'open', 'handle', 'falsy')
    const n = t.tier === 'thorough' ? 7 : 5
    const first = t.bool()
    // a stream handler returns nothing: it marks the stream it got
    const fn = (name: string): any => async (s: any) => {
      if (kind !== 'handle') return name
      s.by = name
    }
    const run = async (f: any) => {
      const s: any = {}
      const r = await f(kind === 'handle' ? s : undefined)
      return kind === 'handle' ? s.by : r
    }
    const falsy: any = { i: 0, v0: '', v1: false, v2: 0 }
    const mk = (name: string) => (kind === 'falsy' ? (falsy[name] ?? null) : kind === 'value' ? { name } : fn(name))
    const nameOf = (v: any) => (kind === 'falsy' ? JSON.stringify(v) : v.name)
    const c: any = kind === 'value' || kind === 'falsy' ? new ValueCtr<any>(first ? mk('i') : undefined) : kind === 'open' ? new OpenStreamCtr(first ? mk('i') : undefined) : new HandleStreamCtr(first ? mk('i') : undefined)
    const f = kind === 'open' ? c.openStreamFunc : kind === 'handle' ? c.handleStreamFunc : null
    const got: string[][] = []
    const want: string[][] = []
    let cur: string | null = first ? (kind === 'falsy' ? '0' : 'i') : null
    let waiting: number[] = []
    const keeps = new Set<number>()
    const seq: string[] = []
    for (let i = 0; i < n; i++) {
      const k = t.choose(6)
      if (k === 0) break
      if (k === 1 || k === 2) {
        const v = k === 1 ? mk('v' + i) : undefined
        cur = k === 1 ? (kind === 'falsy' ? JSON.stringify(v) : 'v' + i) : null
        seq.push(cur ?? 'unset')
        c.set(v)
        if (cur) {
          for (const w of waiting) want[w].push(cur)
          waiting = waiting.filter((w) => keeps.has(w))
        }
      } else {
        const id = got.length
        got.push([])
        want.push([])
        seq.push(k === 3 ? 'wait' : k === 4 ? 'callback' : 'callback again')
        if (k === 3) {
          void (f ? run(f) : c.wait().then(nameOf)).then((x: string) => got[id].push(x))
          if (cur) want[id].push(cur)
          else waiting.push(id)
        } else {
          const cb = async (v: any) => {
            // waits for the next one at once
            if (k === 5) c.waitWithCb(cb)
            got[id].push(f ? await run(v) : nameOf(v))
          }
          if (k === 5) keeps.add(id)
          c.waitWithCb(cb)
          waiting.push(id)
        }
      }
      await step(t, 'op')
    }
    await t.idle()
    if (JSON.stringify(got) !== JSON.stringify(want)) t.failf(`${seq}: ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`)
    const v = c.value
    if ((v !== undefined) !== !!cur || (kind === 'value' && v?.name !== (cur ?? undefined))) t.failf(`${seq}: the value is ${v}`)
  },
}

const helpers: Scenario = {
  prop: 'P27', name: 'pushables', quick: 0, thorough: 0,
  doc: 'a source copied to a queue arrives in order and ends as the source did, for both helpers and both kinds of sources',
  main: async (t) => {
    const l = t.of([], [1], [1, 2, 3])
    const fails = t.bool()
    const how = t.of('write', 'sink', 'sink sync')
    const q = pushable<number>({ objectMode: true })
    async function* src() {
      for (const x of l) {
        await step(t, 'x')
        yield x
      }
      if (fails) throw new Error('source')
    }
    function* sync() {
      yield* l
      if (fails) throw new Error('source')
    }
    const got: number[] = []
    let end: string | null = null
    t.go('read', async () => {
      try {
        for await (const x of q) got.push(x)
        end = ''
      } catch (e: any) {
        end = e.message
      }
    })
    await (how === 'write' ? writeToPushable(src(), q) : buildPushableSink(q)(how === 'sink' ? src() : (sync() as any)))
    await t.idle()
    const whole = got.join() === l.join()
    if (end !== (fails ? 'source' : '') || (!whole && !(fails && l.join().startsWith(got.join())))) t.failf(`[${got}] of [${l}] and ${end}`)
    t.outcome(got.join() + end)
  },
}

// foreign: what is not from the other end does not touch the stream; what the stream says of itself.
function foreign(kind: Kind): Scenario {
  return {
    prop: 'P27', name: kind + '-foreign', quick: 6, thorough: 9,
    doc: 'messages on a ' + kind + ' that are not from the other end (none, no sender, its own) change nothing; isOpen and isAcked agree with what was awaited',
    main: async (t) => {
      const known = t.bool()
      const own = t.bool()
      const msg: any = own ? { from: 'a' } : t.of(null, undefined, 'text', 7, {}, { from: '' })
      const obj = own || (typeof msg === 'object' && msg !== null)
      const what = obj ? t.of({ ack: true }, { opened: true }, { data: bytes(9) }, { closed: true }, { closed: true, error: new Error('foreign') }) : {}
      let other: any
      let a: any
      if (kind === 'port') {
        const [x, y] = ports(t)
        other = y
        a = new ChannelStream<Uint8Array>('a', x as any, { remoteOpen: known })
      } else {
        channels(t)
        a = newBroadcastChannelStream<Uint8Array>('a', 'ba', 'ab', { remoteOpen: known })
        other = new FakeChannel('ba')
      }
      const state = async () => {
        const l: string[] = []
        for (const k of ['waitRemoteOpen', 'waitRemoteAck']) {
          let s = 'pending'
          a[k].then(
            () => (s = 'done'),
            () => (s = 'failed'),
          )
          await t.idle()
          l.push(s)
        }
        return `${l} ${a.isOpen} ${a.isAcked}`
      }
      const got: string[] = []
      let end: string | null = null
      t.go('read', async () => {
        try {
          for await (const b of a.source) got.push(hex(b))
          end = ''
        } catch (e: any) {
          end = e.message
        }
      })
      const pending = await state()
      const want = known ? 'done,done true true' : 'pending,pending false false'
      if (pending !== want) t.failf(`a new stream, remoteOpen=${known}: ${pending}`)
      other.postMessage(obj ? { ...msg, ...what } : msg)
      const after = await state()
      const name = JSON.stringify([msg, Object.keys(what)])
      if (after !== want) t.failf(`${name}: ${after}, before ${want}`)
      if (got.length || end !== null) t.failf(`${name}: the reader got [${got}] and ${end}`)
      // and then the real one
      other.postMessage({ from: 'b', ack: true })
      if ((await state()) !== (known ? want : 'pending,done false true')) t.failf(`after the ack: ${await state()}`)
      other.postMessage({ from: 'b', opened: true })
      if ((await state()) !== 'done,done true true') t.failf(`after the opening: ${await state()}`)
      other.postMessage({ from: 'b', data: bytes(1) })
      other.postMessage({ from: 'b', closed: true })
      await t.idle()
      if (got.join() !== '01' || end !== '') t.failf(`the reader got [${got}] and ${end}`)
      a.close()
      t.outcome(name)
    },
  }
}

export const p27: Scenario[] = [
  ...(['port', 'channel'] as Kind[]).flatMap((k) => [exchange(k), closing(k), idle(k), duplex(k), any(k), foreign(k)]), watchdog, values, helpers,
]
void FakeChannel
void FakePort
