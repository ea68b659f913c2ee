// P29: TypeScript connections: calls multiplexed over a connection
import { Scenario, T } from './engine'
import { StreamConn } from '@repo/srpc/conn'
import { BroadcastChannelConn, newBroadcastChannelDuplex } from '@repo/srpc/broadcast-channel'
import { MessagePortConn } from '@repo/srpc/message-port'
import { WebSocketConn } from '@repo/srpc/websocket'
import { combineUint8ArrayListTransform } from '@repo/srpc/array-list'
import { Client } from '@repo/srpc/client'
import { Server } from '@repo/srpc/server'
import { pipe } from 'it-pipe'
import { asked, yamux } from '@chainsafe/libp2p-yamux'
import { channels, FakeChannel, FakePort, ports } from './ports'
import { call, feed, kinds, Pair, prefix, Result, serverOf } from './lib'
import { impl, Seen } from './p23'

type Carrier = 'stream' | 'port' | 'channel' | 'ws'
const carriers: Carrier[] = ['stream', 'port', 'channel', 'ws']

interface World {
  conns: StreamConn[]
  fail: (() => void) | null
  closed: () => string
}

function world(t: T, c: Carrier, servers: (Server | undefined)[]): World {
  if (c === 'port') {
    const ps = ports(t)
    const conns = [new MessagePortConn(ps[0] as any, servers[0]), new MessagePortConn(ps[1] as any, servers[1], { direction: 'inbound' })]
    return { conns, fail: null, closed: () => ps.map((p: FakePort, i) => (p.closed ? '' : `port ${i} is open `)).join('') }
  }
  if (c === 'channel') {
    channels(t)
    const ds = [newBroadcastChannelDuplex<Uint8Array>('ba', 'ab'), newBroadcastChannelDuplex<Uint8Array>('ab', 'ba')]
    const conns = [new BroadcastChannelConn(ds[0], servers[0]), new BroadcastChannelConn(ds[1], servers[1], { direction: 'inbound' })]
    const all = ds.flatMap((d) => [d.read, d.write]) as any as FakeChannel[]
    return { conns, fail: null, closed: () => all.map((x) => (x.closed ? '' : `channel ${x.name} is open `)).join('') }
  }
  const p = new Pair<any>(t, 'p')
  const fail = () => p.fail(new Error('network'))
  if (c === 'ws') {
    const conns = [new WebSocketConn(p.a as any, 'outbound', servers[0]), new WebSocketConn(p.b as any, 'inbound', servers[1])]
    return { conns, fail, closed: () => p.released() }
  }
  const conns = [new StreamConn(servers[0]), new StreamConn(servers[1], { direction: 'inbound' })]
  ;[p.a, p.b].forEach((e, i) => {
    pipe(e, conns[i], combineUint8ArrayListTransform(), e)
      .catch((err: Error) => conns[i].close(err))
      .then(() => conns[i].close())
  })
  return { conns, fail, closed: () => p.released() }
}

const streaming = (k: string) => k === 'Client' || k === 'Bidi'
const str = (r: Result) => r.got.join(',') + (r.err ? '!' + r.err : '')

function calls(c: Carrier): Scenario {
  return {
    prop: 'P29', name: c + '-calls', quick: 2, thorough: 3, weight: 2,
    doc: 'two calls of any kinds, one each way or both the same, over one connection on a ' + c + ': each gets its answer, no stream stays',
    main: async (t) => {
      const ks = [t.of(...kinds), t.of(...kinds)]
      const both = t.bool()
      const fail = t.bool() ? 'boom' : ''
      const seens: Seen[] = [0, 1].map(() => ({ reqs: [], end: false, calls: 0 }))
      // call i goes to the server at side to[i]
      const to = [1, both ? 1 : 0]
      const srv: (Server | undefined)[] = []
      const outs = [[11], [21]]
      const ins = [[12], [22]]
      const hs = [0, 1].map((i) => impl(t, seens[i], outs[i], i === 0 ? fail : '') as any)
      const pick: any = {}
      // the request tells the calls apart
      for (const k of kinds)
        pick[k] = (a: any) => {
          if (!streaming(k)) return hs[a.n === 12 ? 0 : 1][k](a)
          if (k === 'Client')
            return (async () => {
              const it = a[Symbol.asyncIterator]()
              const f = await it.next()
              return hs[f.value.n === 12 ? 0 : 1][k](again(f.value, it))
            })()
          return (async function* () {
            const it = a[Symbol.asyncIterator]()
            const f = await it.next()
            yield* hs[f.value.n === 12 ? 0 : 1][k](again(f.value, it))
          })()
        }
      async function* again(v: any, it: any) {
        yield v
        for (;;) {
          const n = await it.next()
          if (n.done) return
          yield n.value
        }
      }
      srv[0] = serverOf(pick)
      srv[1] = serverOf(pick)
      const w = world(t, c, srv)
      const clients = w.conns.map((x) => x.buildClient())
      const rs = await Promise.all(
        [0, 1].map((i) => call(clients[1 - to[i]], ks[i], streaming(ks[i]) ? feed(t, 'in', ins[i]) : ins[i][0])),
      )
      for (const i of [0, 1]) {
        if (seens[i].reqs.join() !== ins[i].join()) t.failf(`call ${i}: the handler received [${seens[i].reqs}]`)
        const want = i === 0 && fail ? '!' + fail : '' + outs[i][0]
        const s = str(rs[i])
        if (s !== want && !(i === 0 && fail && s === outs[0][0] + '!' + fail)) t.failf(`call ${i}: the caller got ${s}, expected ${want}`)
      }
      await t.idle()
      for (const i of [0, 1]) if (w.conns[i].streams.length) t.failf(`side ${i} keeps ${w.conns[i].streams.length} streams`)
      w.conns[t.choose(2)].close(t.bool() ? new Error('shut') : undefined)
      await t.idle()
      if (w.closed()) t.failf(w.closed())
      t.outcome(rs.map(str).join(' '))
    },
  }
}

function closing(c: Carrier): Scenario {
  return {
    prop: 'P29', name: c + '-close', quick: 3, thorough: 4, weight: 2,
    doc: 'a call of any kind over a connection on a ' + c + ' that is closed by either side, or lost, at any point: the call ends, the handler too, both sides close',
    main: async (t) => {
      const k = t.of(...kinds)
      const how = t.of('client', 'client error', 'server', 'server error', 'lost')
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      const outs = k === 'Unary' || k === 'Client' ? [7] : [8, 9]
      const ins = streaming(k) ? [4, 5] : [3]
      const w = world(t, c, [undefined, serverOf(impl(t, seen, outs, ''))])
      if (how === 'lost' && !w.fail) return
      let at = false
      t.event('', how, () => {
        at = true
        const e = how.endsWith('error') ? new Error('shut') : undefined
        if (how === 'lost') w.fail!()
        else w.conns[how.startsWith('client') ? 0 : 1].close(e)
      })
      const client = t.bool() ? new Client(w.conns[0].buildOpenStreamFunc()) : w.conns[0].buildClient()
      const r = await call(client, k, streaming(k) ? feed(t, 'in', ins) : ins[0])
      if (r.err && !at) t.failf('the call failed on its own: ' + r.err)
      if (!r.err && r.got.length !== outs.length) t.failf(`the call ended without an error after [${r.got}] of [${outs}]`)
      if (!prefix(r.got, outs)) t.failf(`the caller got [${r.got}] of [${outs}]`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received [${seen.reqs}] of [${ins}]`)
      await t.idle()
      if (seen.calls && !seen.end && !seen.err) t.failf('the handler still waits for requests')
      if (seen.end && seen.reqs.length < ins.length) t.failf(`the handler saw the end of the requests after [${seen.reqs}] of [${ins}]`)
      if (w.closed()) t.failf(w.closed())
      const r2 = await call(client, 'Unary', 3)
      if (!r2.err) t.failf('a call over a closed connection succeeded')
      await t.idle()
      t.outcome(how + ' ' + str(r))
    },
  }
}

const refused: Scenario = {
  prop: 'P29', name: 'no-server', quick: 3, thorough: 5,
  doc: 'a call to a side without a server fails, on every carrier, and the connection stays usable the other way',
  main: async (t) => {
    const c = t.of(...carriers)
    const k = t.of(...kinds)
    const seen: Seen = { reqs: [], end: false, calls: 0 }
    const w = world(t, c, [serverOf(impl(t, seen, [7], '')), undefined])
    const r = await call(w.conns[0].buildClient(), k, streaming(k) ? feed(t, 'in', [4]) : 3)
    if (!r.err || r.got.length) t.failf('the call got ' + str(r))
    const r2 = await call(w.conns[1].buildClient(), k, streaming(k) ? feed(t, 'in', [4]) : 3)
    if (r2.err || r2.got.join() !== '7') t.failf('the call the other way got ' + str(r2))
    await t.idle()
    for (const i of [0, 1]) if (w.conns[i].streams.length) t.failf(`side ${i} keeps ${w.conns[i].streams.length} streams`)
    t.outcome(str(r) + ' ' + str(r2))
  },
}

const configured: Scenario = {
  prop: 'P29', name: 'configured', quick: 1, thorough: 1,
  doc: 'how a connection sets up its multiplexer: direction, keep-alive on carriers that cannot tell when they are lost, the caller\'s own settings, an own multiplexer',
  main: async (t) => {
    const c = t.of(...carriers)
    const direction = t.of<any>(undefined, 'inbound', 'outbound')
    const own = t.of<any>(undefined, {}, { keepAliveInterval: 99 }, { enableKeepAlive: false, maxMessageSize: 7 }, { enableKeepAlive: true })
    const factory = t.bool()
    const w = world(t, 'stream', []) // the muxer this makes is not looked at
    void w
    let made: any
    const muxerFactory: any = { protocol: 'own', createStreamMuxer: (init: any) => ((made = init), yamux({})({}).createStreamMuxer(init)) }
    asked.params = asked.init = undefined
    const params: any = { direction, yamuxParams: own }
    if (factory) params.muxerFactory = muxerFactory
    const server = serverOf({})
    let conn: StreamConn
    const dir = direction ?? 'outbound'
    if (c === 'port') conn = new MessagePortConn(ports(t)[0] as any, server, params)
    else if (c === 'channel') {
      channels(t)
      conn = new BroadcastChannelConn(newBroadcastChannelDuplex<Uint8Array>('r', 'w'), server, params)
    } else if (c === 'ws') conn = new WebSocketConn(new Pair<any>(t, 'p').a as any, dir, server)
    else conn = new StreamConn(server, params)
    if (conn.server !== server) t.failf('the connection has another server')
    if (factory && c !== 'ws') {
      if (!made) t.failf('the own multiplexer was not used')
      else if (made.direction !== dir) t.failf('the own multiplexer was told ' + made.direction)
    } else {
      if (!asked.init) return t.failf('no multiplexer')
      if (asked.init.direction !== dir) t.failf('the multiplexer was told ' + asked.init.direction)
      const p = asked.params ?? {}
      const set = c === 'ws' ? undefined : own
      const lossy = c === 'port' || c === 'channel'
      const alive = set?.enableKeepAlive ?? lossy
      if ((p.enableKeepAlive ?? true) !== alive) t.failf('keep-alive is ' + p.enableKeepAlive)
      if (set?.keepAliveInterval !== undefined && p.keepAliveInterval !== set.keepAliveInterval) t.failf('the keep-alive interval is ' + p.keepAliveInterval)
      if (p.maxMessageSize !== set?.maxMessageSize) t.failf('the message size is ' + p.maxMessageSize)
    }
    await t.idle()
    conn.close()
    await t.idle()
    t.outcome(c + ' ' + dir)
  },
}

export const p29: Scenario[] = [configured, ...carriers.map(calls), ...carriers.map(closing), refused]
