// P31: a TypeScript end and a Go end of a call understand each other
import { Scenario, T } from './engine'
import { Client } from '@repo/srpc/client'
import { Server } from '@repo/srpc/server'
import { ERR_RPC_ABORT } from '@repo/srpc/errors'
import { createMux } from '@repo/srpc/mux'
import { createHandler } from '@repo/srpc/handler'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb'
import { buildRpcStreamOpenStream, handleRpcStream, openRpcStream } from '@repo/rpcstream/rpcstream'
import { Far, hexs, listed } from './far'
import { prefix as pfx, step } from './lib'

const kinds = ['Unary', 'Server', 'Client', 'Bidi']
const many = (k: string) => k === 'Client' || k === 'Bidi'
const manyOut = (k: string) => k === 'Server' || k === 'Bidi'
const long = 'x'.repeat(20000)
const q = (l: string[]) => '[' + l.map((x) => (x.length > 20 ? x.slice(0, 5) + '...' + x.length : JSON.stringify(x))).join() + ']'
const prefix = (a: string[], b: string[]) => pfx(a as any, b as any)

// the messages of a call
const someIn = (t: T, k: string): string[] => (many(k) ? t.of<string[]>([], ['a'], ['', 'bé']) : [t.of('a', '', 'bé')])
const someOut = (t: T, k: string): string[] => (manyOut(k) ? t.of<string[]>([], ['c'], ['', 'd€']) : [t.of('c', '', 'd€')])

export interface Res {
  got: string[]
  err?: string
  done: boolean
  sent: number
}

async function* feed(t: T, list: string[], res: Res, err?: string) {
  for (const body of list) {
    await step(t, 'in')
    res.sent++
    yield body === '' ? {} : { body }
  }
  await step(t, 'inend')
  if (err) throw new Error(err)
}

// call makes a call of the Echo service with the generated client.
async function call(t: T, c: any, k: string, ins: string[], signal?: AbortSignal, inErr?: string, res: Res = { got: [], done: false, sent: 0 }): Promise<Res> {
  const one = () => (ins[0] === '' ? {} : { body: ins[0] })
  const put = (m: any) => res.got.push(m.body ?? '')
  try {
    if (k === 'Unary') put(await c.Echo(one(), signal))
    else if (k === 'Client') put(await c.EchoClientStream(feed(t, ins, res, inErr), signal))
    else for await (const m of k === 'Server' ? c.EchoServerStream(one(), signal) : c.EchoBidiStream(feed(t, ins, res, inErr), signal)) put(m)
  } catch (e: any) {
    res.err = e?.message ?? String(e)
  }
  res.done = true
  return res
}

// the Echo service in TypeScript
interface Prog {
  outs: string[]
  fail: string
  bidi?: string
  read?: number // stop reading after so many requests
  wait?: boolean
  proxy?: boolean
}
interface Seen {
  starts: string[]
  reqs: string[]
  end: number
  errs: string[]
  done: number
  component?: string
}
const nothingSeen = (): Seen => ({ starts: [], reqs: [], end: 0, errs: [], done: 0 })

function echoer(t: T, p: Prog, seen: Seen, at = ''): any {
  const msg = (body: string) => (body === '' ? {} : { body })
  const drain = async function* (reqs: AsyncIterable<any>): AsyncGenerator<any> {
    let n = 0
    if (p.read === 0) return
    try {
      for await (const r of reqs) {
        seen.reqs.push(r.body ?? '')
        yield r
        if (++n === p.read) return
      }
      seen.end++
    } catch (e: any) {
      seen.errs.push(e?.message)
      throw e
    }
  }
  const all = async (reqs: AsyncIterable<any>) => {
    for await (const r of drain(reqs)) void r
  }
  async function* answers() {
    for (const b of p.outs) {
      await step(t, 'answer')
      yield msg(b)
    }
  }
  const finish = () => {
    if (p.fail) throw new Error(p.fail)
  }
  async function* stream(name: string, f: () => AsyncGenerator<any>): AsyncGenerator<any> {
    seen.starts.push(at + name)
    try {
      yield* f()
    } finally {
      seen.done++
    }
  }
  const unary = async (name: string, f: () => Promise<any>) => {
    seen.starts.push(at + name)
    try {
      return await f()
    } finally {
      seen.done++
    }
  }
  return {
    Echo: (m: any) =>
      unary('Echo', async () => {
        seen.reqs.push(m.body ?? '')
        seen.end++
        await step(t, 'work')
        finish()
        return msg(p.outs[0])
      }),
    EchoServerStream: (m: any) =>
      stream('EchoServerStream', async function* () {
        seen.reqs.push(m.body ?? '')
        seen.end++
        yield* answers()
        finish()
      }),
    EchoClientStream: (reqs: any) =>
      unary('EchoClientStream', async () => {
        await all(reqs)
        await step(t, 'work')
        finish()
        return msg(p.outs[0])
      }),
    EchoBidiStream: (reqs: any) =>
      stream('EchoBidiStream', async function* () {
        if (p.bidi === 'first') {
          yield* answers()
          await all(reqs)
        } else if (p.bidi === 'echo') {
          for await (const r of drain(reqs)) yield r
        } else {
          await all(reqs)
          yield* answers()
        }
        finish()
      }),
    RpcStream: (reqs: any) => {
      seen.starts.push(at + 'RpcStream')
      return handleRpcStream(reqs[Symbol.asyncIterator](), async (id: string) => {
        seen.component = id
        if (id === 'gone') return null
        if (id === 'bad') throw new Error('bad component')
        return serverOf(echoer(t, p, seen, 'inner')).rpcStreamHandler
      })
    },
    DoNothing: () => unary('DoNothing', async () => ({})),
  }
}

function serverOf(impl: any, id?: string): Server {
  const mux = createMux()
  mux.register(createHandler(EchoerDefinition, impl, id))
  return new Server(mux.lookupMethod)
}

// Side is a call under way between the two ends, whichever way round.
interface Side {
  res: Res
  seen: () => Seen
  far: Far
  begun: () => boolean
  settle: () => Promise<void>
}

const farSeen = (f: Far): Seen => ({
  starts: f.all('start'), reqs: f.all('req'), end: f.all('reqend').length, errs: f.all('reqerr'),
  done: f.all('end').length, component: f.all('component')[0],
})
const args = (p: Prog) => ({
  outs: listed(p.outs), fail: hexs(p.fail), bidi: p.bidi ?? '', read: p.read === undefined ? '' : String(p.read), wait: p.wait ? '1' : '', proxy: p.proxy ? '1' : '',
})
const nameOf: any = { Unary: 'Echo', Server: 'EchoServerStream', Client: 'EchoClientStream', Bidi: 'EchoBidiStream' }

interface Opts {
  far: boolean // the server is in Go
  nested?: string // '' | nested | acked: through a call of RpcStream
  component?: string
  service?: string // the service the client asks for
  signal?: AbortSignal
  inErr?: string
  both?: boolean
  bytewise?: boolean
  noServer?: boolean
  on?: Side // a second call of the same session
  id?: string
}

function accept(t: T, far: Far, p: Prog, seen: Seen) {
  const server = serverOf(echoer(t, p, seen))
  far.accept = (s) => server.handlePacketStream(s)
}

// begin starts a call of kind k; the result fills in as it goes on.
function begin(t: T, k: string, ins: string[], p: Prog, o: Opts): Side {
  const far = o.on?.far ?? new Far(t, args(p), o.both, o.bytewise)
  const id = o.id ?? 'x'
  const res: Res = { got: [], done: false, sent: 0 }
  const seen = nothingSeen()
  let begun = o.far
  if (o.far) {
    let c: any = new Client(async () => far.open())
    if (o.nested) {
      const outer = new EchoerClient(c)
      const comp = o.component ?? 'comp'
      const caller = (r: any) => outer.RpcStream(r)
      c = new Client(o.nested === 'acked' ? () => openRpcStream(comp, caller, true) : buildRpcStreamOpenStream(comp, caller))
    }
    const ec = new EchoerClient(c, o.service ? { service: o.service } : undefined)
    t.go('call', () => call(t, ec, k, ins, o.signal, o.inErr, res))
  } else {
    if (!o.on) accept(t, far, p, seen)
    t.event('', 'call', () => {
      begun = true
      far.run(`call ${id} ${k} ${listed(ins)} ${o.nested ?? ''} ${o.component ? 'comp=' + o.component : ''} ${o.service ? 'service=' + o.service : ''}`)
    })
  }
  const fill = () => {
    if (o.far) return
    res.got = far.all(id + '.got')
    const d = far.all(id + '.done')
    res.done = d.length > 0
    res.err = d[0] || undefined
    if (d.length > 1) t.failf('the call ended twice: ' + d)
  }
  return {
    get res() {
      fill()
      return res
    },
    seen: () => (o.far ? farSeen(far) : seen),
    far,
    begun: () => begun,
    settle: async () => {
      await t.idle()
      fill()
      if (!res.done) t.failf('the call never ended')
      const s = o.far ? farSeen(far) : seen
      if (s.starts.length !== new Set(s.starts).size) t.failf('the handler ran twice: ' + s.starts)
      const want = s.starts.filter((x) => !x.endsWith('RpcStream')).length
      if (s.done !== want) t.failf('the handler never ended')
      const rel = far.released()
      if (rel) t.failf(rel)
      far.end()
    },
  }
}

const str = (r: Res) => q(r.got) + (r.err ? '!' + r.err : '')
const ways: [boolean, string][] = [
  [true, 'ts-to-go'],
  [false, 'go-to-ts'],
]

function basic(k: string, far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-' + k.toLowerCase(), quick: k === 'Bidi' ? 1 : 2, thorough: 4, weight: many(k) ? 2 : 1,
    doc: `a ${k} call ${way}: every number of messages both ways, empty ones, handler errors, handlers that answer first, echo, or stop reading`,
    main: async (t) => {
      const ins = someIn(t, k)
      const outs = someOut(t, k)
      const p: Prog = { outs, fail: t.of('', 'boom é') }
      if (k === 'Bidi') p.bidi = t.of('', 'first', 'echo')
      if (many(k)) p.read = t.of(undefined, 1, 0)
      const both = t.bool()
      // the handler may be done before the caller has said everything
      const s = begin(t, k, ins, p, { far, both, bytewise: t.bool() })
      await s.settle()
      const r = s.res
      const seen = s.seen()
      if (seen.starts.join() !== nameOf[k]) t.failf(`the handler ${seen.starts || 'nothing'} ran`)
      const take = p.read === undefined ? ins.length : Math.min(p.read, ins.length)
      if (seen.reqs.join('|') !== ins.slice(0, take).join('|') || seen.reqs.length !== take) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
      if (seen.errs.length) t.failf('the requests failed: ' + seen.errs)
      if ((p.read === undefined || p.read > ins.length) && seen.end !== 1) t.failf('the handler did not see the end of the requests')
      const want = p.bidi === 'echo' ? ins.slice(0, take) : outs
      if (p.fail) {
        if (r.err !== p.fail) t.failf(`the caller got ${str(r)} for the error ${p.fail}`)
        if (!prefix(r.got, want)) t.failf(`the caller got ${q(r.got)} of ${q(want)}`)
      } else {
        if (r.err) t.failf('the call failed: ' + r.err)
        if (r.got.length !== want.length || !prefix(r.got, want)) t.failf(`the caller got ${q(r.got)} of ${q(want)}`)
      }
      t.outcome(str(r))
    },
  }
}

function stopped(k: string, far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-' + k.toLowerCase() + '-cancel', quick: 2, thorough: 4,
    doc: `a ${k} call ${way} that its caller cancels at any point: both ends stop`,
    main: async (t) => {
      const ins = many(k) ? t.of(['a'], ['', 'b']) : ['a']
      const outs = manyOut(k) ? t.of(['c'], ['', 'd']) : ['c']
      const p: Prog = { outs, fail: '' }
      // a Go handler that waits to be cancelled
      if (far) p.wait = t.bool()
      const how = far ? 'abort' : t.of('cancel', 'close')
      const ac = new AbortController()
      const s = begin(t, k, ins, p, { far, signal: ac.signal, both: t.bool() })
      let at = false
      let full = false
      t.after(t.choose(14), () => {
        at = true
        full = s.res.done
        if (far) ac.abort()
        else if (s.begun()) s.far.run(how + ' x')
        else full = true // nothing to cancel yet
      })
      if (!far && how === 'close' && k === 'Unary') return // nothing to close
      await s.settle()
      const r = s.res
      const seen = s.seen()
      if (r.err && !at) t.failf('the call failed before it was cancelled: ' + r.err)
      if (r.err && far && r.err !== ERR_RPC_ABORT) t.failf('the caller got ' + str(r))
      if (r.err && !far && how === 'cancel' && r.err !== 'context canceled') t.failf('the caller got ' + str(r))
      if (!prefix(r.got, outs)) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
      if (!r.err && how !== 'close' && (r.got.length !== outs.length || p.wait)) t.failf(`the call ended without an error after ${q(r.got)} of ${q(outs)}`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
      if (seen.end && seen.reqs.length < ins.length) t.failf(`the handler saw the end of the requests after ${q(seen.reqs)} of ${q(ins)}`)
      t.outcome(str(r) + (full ? ' late' : ''))
    },
  }
}

function lost(k: string, far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-' + k.toLowerCase() + '-lost', quick: 2, thorough: 4,
    doc: `a ${k} call ${way} whose transport fails at any point: both ends get to know`,
    main: async (t) => {
      const ins = many(k) ? t.of(['a'], ['', 'b']) : ['a']
      const outs = manyOut(k) ? t.of(['c'], ['', 'd']) : ['c']
      const s = begin(t, k, ins, { outs, fail: '' }, { far, both: t.bool() })
      const err = t.bool()
      let at = false
      t.after(t.choose(14), () => {
        at = true
        s.far.wire()?.fail(err ? new Error('network') : undefined)
      })
      await s.settle()
      const r = s.res
      const seen = s.seen()
      if (r.err && !at) t.failf('the call failed before its transport: ' + r.err)
      if (!prefix(r.got, outs)) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
      if (!r.err && r.got.length !== outs.length) t.failf(`the call ended without an error after ${q(r.got)} of ${q(outs)}`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
      if (seen.end && seen.reqs.length < ins.length) t.failf(`the handler saw the end of the requests after ${q(seen.reqs)} of ${q(ins)}`)
      t.outcome(str(r))
    },
  }
}

// unknown: the service is not there
function unknown(k: string, far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-' + k.toLowerCase() + '-unknown', quick: 2, thorough: 4, weight: 0.5,
    doc: `a ${k} call ${way} of a service that is not there fails at the caller`,
    main: async (t) => {
      const ins = someIn(t, k)
      const s = begin(t, k, ins, { outs: ['c'], fail: '' }, { far, service: 'other', both: t.bool() })
      await s.settle()
      const r = s.res
      if (s.seen().starts.length) t.failf('a handler ran: ' + s.seen().starts)
      if (r.got.length) t.failf('answers came: ' + q(r.got))
      const want = far ? 'unimplemented' : 'not found: other/' + nameOf[k]
      if (r.err !== want) t.failf(`the caller got ${str(r)}, want the error ${want}`)
      t.outcome(str(r))
    },
  }
}

const inputError = (k: string): Scenario => ({
  prop: 'P31', name: 'ts-to-go-' + k.toLowerCase() + '-input-error', quick: 2, thorough: 4,
  doc: `the requests of a ${k} call ts-to-go fail: the handler and the caller get the error`,
  main: async (t) => {
    const ins = t.of<string[]>([], ['a'], ['', 'b'])
    const s = begin(t, k, ins, { outs: ['c'], fail: '' }, { far: true, inErr: 'no more é', both: t.bool() })
    await s.settle()
    const r = s.res
    const seen = s.seen()
    if (r.err !== 'no more é') t.failf('the caller got ' + str(r))
    if (r.got.length) t.failf('answers came: ' + q(r.got))
    if (seen.starts.length) {
      if (seen.end) t.failf('the handler saw the end of the requests')
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
      if (seen.errs.length !== 1) t.failf('the handler saw the errors ' + seen.errs)
    }
    t.outcome(str(r) + seen.errs)
  },
})

function nested(k: string, far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-' + k.toLowerCase() + '-nested', quick: 2, thorough: 3,
    doc: `a ${k} call ${way} inside a call of RpcStream, with and without waiting for the ack: the right component, the same outcome; components that are missing`,
    main: async (t) => {
      const how = t.of('nested', 'acked')
      const component = t.of('comp', 'x/é', '', 'gone', 'bad')
      const bad = component === 'gone' || component === 'bad'
      const ins = many(k) ? t.of<string[]>([], ['', 'b']) : ['a']
      const outs = manyOut(k) ? t.of<string[]>([], ['', 'd']) : ['c']
      const p: Prog = { outs, fail: bad ? '' : t.of('', 'boom') }
      if (!far && component === '') return
      const s = begin(t, k, ins, p, { far, nested: how, component })
      await s.settle()
      const r = s.res
      const seen = s.seen()
      if (seen.component !== component) t.failf(`the component ${seen.component} was looked up, not ${component}`)
      if (bad) {
        if (!r.err || r.got.length) t.failf('the caller got ' + str(r) + ' from the component ' + component)
        if (how === 'acked') {
          const w = component === 'bad' ? 'bad component' : ''
          if (w && !r.err!.includes(w)) t.failf('the caller got ' + str(r) + ' from the component ' + component)
        }
        if (seen.starts.join() !== 'RpcStream') t.failf('ran: ' + seen.starts)
      } else {
        if (seen.starts.join() !== 'RpcStream,inner' + nameOf[k]) t.failf('ran: ' + seen.starts)
        if (seen.reqs.join('|') !== ins.join('|') || seen.reqs.length !== ins.length) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
        if (r.err !== (p.fail || undefined)) t.failf(`the caller got ${str(r)} for the error ${p.fail || 'none'}`)
        if (!p.fail && r.got.length !== outs.length) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
        if (!prefix(r.got, outs)) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
      }
      if (far && !bad && s.far.all('released').length !== 1) t.failf('the component was released ' + s.far.all('released').length + ' times')
      t.outcome(str(r))
    },
  }
}

// sizes: messages around the limits of the buffers
function sizes(far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-sizes', quick: 1, thorough: 1, weight: 0.5,
    doc: `echo of messages of many sizes and texts ${way}, whole or byte by byte`,
    main: async (t) => {
      const body = t.of('', '\0', 'a', 'é', '€', '\u{1F600}', 'x'.repeat(127), 'x'.repeat(128), 'y'.repeat(255), 'é'.repeat(128), 'x'.repeat(2000), 'x'.repeat(2048), long, 'z'.repeat(70000))
      const k = t.of('Bidi', 'Unary')
      const bytewise = t.bool()
      const s = begin(t, k, [body], { outs: [body], fail: '', bidi: 'echo' }, { far, bytewise })
      await s.settle()
      if (s.res.err || s.res.got.length !== 1 || s.res.got[0] !== body) t.failf(`${q([body])} came back as ${str(s.res)}`)
      if (s.seen().reqs.join('|') !== body) t.failf(`${q([body])} arrived as ${q(s.seen().reqs)}`)
      t.outcome(String(body.length))
    },
  }
}

// concurrent: two calls at once, in the same direction or against each other
function concurrent(dirs: [boolean, boolean], name: string): Scenario {
  return {
    prop: 'P31', name, quick: 1, thorough: 3, weight: 2,
    doc: `two calls at once (${name}), of every two kinds; one of them may be cancelled: each gets its own`,
    main: async (t) => {
      const ks = [t.of(...kinds), t.of(...kinds)]
      const p: Prog = { outs: ['o'], fail: '', bidi: 'echo' }
      const ac = new AbortController()
      const a = begin(t, ks[0], ['a'], p, { far: dirs[0], signal: ac.signal })
      const seen = nothingSeen()
      if (dirs[0] && !dirs[1]) accept(t, a.far, p, seen)
      const b = begin(t, ks[1], ['b'], p, { far: dirs[1], on: a, id: 'y' })
      let at = false
      if (t.bool())
        t.after(t.choose(14), () => {
          at = a.begun()
          if (dirs[0]) ac.abort()
          else if (at) a.far.run('cancel x')
        })
      await t.idle()
      for (const [i, s] of [a, b].entries()) {
        const r = s.res
        if (!r.done) t.failf(`call ${i} never ended`)
        const want = ks[i] === 'Bidi' ? ['ab'[i]] : ['o']
        if (r.err && (i === 1 || !at)) t.failf(`call ${i} failed with ${r.err}`)
        if (!r.err && r.got.join() !== want.join()) t.failf(`call ${i} got ${q(r.got)}, want ${q(want)}`)
        if (!prefix(r.got, want)) t.failf(`call ${i} got ${q(r.got)}, want ${q(want)}`)
        t.outcome(ks[i] + str(r))
      }
      const reqs = [...a.far.all('req'), ...(dirs[0] ? seen : a.seen()).reqs].sort().join()
      if (reqs !== 'a,b' && !(at && reqs === 'b')) t.failf('the handlers received ' + reqs)
      const rel = a.far.released()
      if (rel) t.failf(rel)
      a.far.end()
    },
  }
}

// proxied: TypeScript calls a component that the Go end passes on to another TypeScript server
function proxied(k: string): Scenario {
  return {
    prop: 'P31', name: 'ts-go-ts-' + k.toLowerCase() + '-proxied', quick: 1, thorough: 2,
    doc: `a ${k} call of a component in TypeScript through a proxy in Go: the same outcome as without`,
    main: async (t) => {
      const ins = many(k) ? t.of<string[]>([], ['', 'b']) : ['a']
      const outs = manyOut(k) ? t.of<string[]>([], ['', 'd']) : ['c']
      const p: Prog = { outs, fail: t.of('', 'boom'), proxy: true }
      const seen = nothingSeen()
      const ac = new AbortController()
      const s = begin(t, k, ins, p, { far: true, nested: t.of('nested', 'acked'), component: 'proxy', signal: ac.signal })
      accept(t, s.far, p, seen)
      const stop = t.bool()
      let at = false
      if (stop)
        t.after(t.choose(18), () => {
          at = true
          ac.abort()
        })
      await t.idle()
      const r = s.res
      if (!r.done) t.failf('the call never ended')
      if (seen.starts.length > seen.done + 1) t.failf('the handler never ended')
      const rel = s.far.released()
      if (rel) t.failf(rel)
      s.far.end()
      if (!prefix(r.got, outs)) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
      if (!at || (!r.err && !p.fail)) {
        if (seen.component !== 'target') t.failf(`the component ${seen.component} was looked up`)
        if (seen.starts.join() !== 'RpcStream,inner' + nameOf[k]) t.failf('ran: ' + seen.starts)
        if (seen.reqs.length !== ins.length) t.failf(`the handler received ${q(seen.reqs)} of ${q(ins)}`)
        if (r.err !== (p.fail || undefined)) t.failf(`the caller got ${str(r)} for the error ${p.fail || 'none'}`)
        if (!p.fail && r.got.length !== outs.length) t.failf(`the caller got ${q(r.got)} of ${q(outs)}`)
      } else if (r.err !== ERR_RPC_ABORT && r.err !== p.fail) t.failf('the caller got ' + str(r))
      t.outcome(str(r))
    },
  }
}

export const p31: Scenario[] = [
  ...ways.flatMap(([far, way]) => [
    ...kinds.map((k) => basic(k, far, way)),
    ...kinds.map((k) => stopped(k, far, way)),
    ...kinds.map((k) => lost(k, far, way)),
    ...kinds.map((k) => unknown(k, far, way)),
    ...kinds.map((k) => nested(k, far, way)),
    sizes(far, way),
  ]),
  concurrent([true, true], 'two-ts-to-go'),
  concurrent([false, false], 'two-go-to-ts'),
  concurrent([true, false], 'both-ways'),
  ...kinds.map(proxied),
  inputError('Client'),
  inputError('Bidi'),
]
void long

// a long session between the two languages
function longRun(far: boolean, way: string): Scenario {
  return {
    prop: 'P31', name: way + '-backlog', quick: 0, thorough: 0, weight: 3,
    doc: `70, 300 or 600 messages each way in a call ${way}, answered first, echoed or answered last: nothing lost, nothing out of order`,
    main: async (t) => {
      const n = t.of(70, 300, 600)
      const bidi = t.of('', 'first', 'echo')
      const ins = Array.from({ length: n }, (_, i) => 'i' + i)
      const outs = Array.from({ length: n }, (_, i) => 'o' + i)
      const s = begin(t, 'Bidi', ins, { outs, fail: '', bidi }, { far, both: t.bool() })
      await s.settle()
      const r = s.res
      const seen = s.seen()
      const want = bidi === 'echo' ? ins : outs
      if (r.err || r.got.length !== n || !prefix(r.got, want)) t.failf(`the caller got ${r.got.length} of ${n} messages: ${r.got.findIndex((x, i) => x !== want[i])} is wrong, ${r.err ?? ''}`)
      if (seen.reqs.length !== n || !prefix(seen.reqs, ins) || seen.end !== 1) t.failf(`the handler received ${seen.reqs.length} of ${n} messages: ${seen.reqs.findIndex((x, i) => x !== ins[i])} is wrong`)
      t.outcome('' + n)
    },
  }
}
p31.push(...ways.map(([far, way]) => longRun(far, way)))
