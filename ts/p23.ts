// P23: TypeScript calls deliver messages, results and errors
import { getEventListeners } from 'node:events'
import { Scenario, T } from './engine'
import { Client } from '@repo/srpc/client'
import { ERR_RPC_ABORT } from '@repo/srpc/errors'
import { createMux } from '@repo/srpc/mux'
import { createHandler } from '@repo/srpc/handler'
import { Server } from '@repo/srpc/server'
import { Packet } from '@repo/srpc/rpcproto.pb'
import { Pair, Result, bytes, call, feed, kinds, definition, prefix, serverOf, step } from './lib'

const streaming = (k: string) => k === 'Client' || k === 'Bidi'

export interface Seen {
  reqs: number[]
  err?: string
  end: boolean
  calls: number
}

// impl is a server that logs what it receives and answers what it is told to.
export function impl(t: T, seen: Seen, out: number[], fail: string) {
  const drain = async (reqs: AsyncIterable<any>) => {
    try {
      for await (const r of reqs) seen.reqs.push(r.n)
      seen.end = true
    } catch (e: any) {
      seen.err = e?.message
      throw e
    }
  }
  async function* answers() {
    for (const n of out) {
      await step(t, 'answer' + n)
      yield { n }
    }
    if (fail) throw new Error(fail)
  }
  return {
    Unary: async (r: any) => {
      seen.calls++
      seen.reqs.push(r.n)
      seen.end = true
      await step(t, 'work')
      if (fail) throw new Error(fail)
      return { n: out[0] }
    },
    Server: (r: any) => {
      seen.calls++
      seen.reqs.push(r.n)
      seen.end = true
      return answers()
    },
    Client: async (reqs: any) => {
      seen.calls++
      await drain(reqs)
      if (fail) throw new Error(fail)
      return { n: out[0] }
    },
    Bidi: async function* (reqs: any) {
      seen.calls++
      await drain(reqs)
      yield* answers()
    },
  }
}

function inputs(t: T, k: string): number[] {
  if (!streaming(k)) return [t.of(3, 0)]
  return t.of([], [4], [0, 5])
}
function outputs(t: T, k: string): number[] {
  if (k === 'Unary' || k === 'Client') return [t.of(7, 0)]
  return t.of([], [8], [0, 9])
}
const str = (r: Result) => r.got.join(',') + (r.err ? '!' + r.err : '')

function basic(k: string): Scenario {
  return {
    prop: 'P23', name: k.toLowerCase(), quick: 12, thorough: 16,
    doc: 'a ' + k + ' call: every number of messages both ways, empty ones, a server error',
    main: async (t) => {
      const p = new Pair(t, 'p', t.bool())
      const ins = inputs(t, k)
      const outs = outputs(t, k)
      const fail = t.of('', 'boom')
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      serverOf(impl(t, seen, outs, fail)).handlePacketStream(p.b)
      const c = new Client(async () => p.a)
      const r = await call(c, k, streaming(k) ? feed(t, 'in', ins) : ins[0])
      if (seen.calls !== 1) t.failf(`the handler ran ${seen.calls} times`)
      if (!seen.end || seen.err) t.failf('the handler did not see the end of the requests: ' + seen.err)
      if (seen.reqs.join() !== ins.join()) t.failf(`the handler received [${seen.reqs}] of [${ins}]`)
      if (fail) {
        if (r.err !== fail) t.failf(`the caller got ${str(r)} for the error ${fail}`)
        if (!prefix(r.got, outs)) t.failf(`the caller got [${r.got}] of [${outs}]`)
      } else {
        if (r.err) t.failf('the call failed: ' + r.err)
        if (r.got.join() !== outs.join()) t.failf(`the caller got [${r.got}] of [${outs}]`)
      }
      await t.idle()
      const rel = p.released()
      if (rel) t.failf(rel)
      t.outcome(str(r))
    },
  }
}


// ended checks that the handler has stopped reading and the transport is released.
async function settled(t: T, p: Pair, seen: Seen) {
  await t.idle()
  if (seen.calls > 1) t.failf(`the handler ran ${seen.calls} times`)
  if (seen.calls && !seen.end && !seen.err) t.failf('the handler still waits for requests')
  const rel = p.released()
  if (rel) t.failf(rel)
}

function aborted(k: string): Scenario {
  return {
    prop: 'P23', name: k.toLowerCase() + '-abort', quick: 9, thorough: 16,
    doc: 'a ' + k + ' call whose caller aborts it at any point',
    main: async (t) => {
      const p = new Pair(t, 'p', t.bool())
      const ins = streaming(k) ? t.of([4], [0, 5]) : [3]
      const outs = k === 'Unary' || k === 'Client' ? [7] : t.of([8], [0, 9])
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      serverOf(impl(t, seen, outs, '')).handlePacketStream(p.b)
      const c = new Client(async () => p.a)
      const ac = new AbortController()
      let at = false
      let full = false
      t.event('', 'abort', () => {
        at = true
        full = r0.done
        ac.abort()
      })
      const r0: Result = { got: [], done: false }
      const r = await call(c, k, streaming(k) ? feed(t, 'in', ins) : ins[0], ac.signal, 'svc', k, r0)
      if (r.err && r.err !== ERR_RPC_ABORT) t.failf('the caller got ' + str(r))
      if (r.err && !at) t.failf('the call failed before it was aborted: ' + r.err)
      if (!r.err && r.got.join() !== outs.join()) t.failf(`the call ended without an error after [${r.got}] of [${outs}]`)
      if (!prefix(r.got, outs)) t.failf(`the caller got [${r.got}] of [${outs}]`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received [${seen.reqs}] of [${ins}]`)
      await settled(t, p, seen)
      if (at && !full && !r.err) t.failf('the call was aborted and succeeded')
      if (seen.end && seen.reqs.length < ins.length) t.failf(`the handler saw the end of the requests after [${seen.reqs}] of [${ins}]`)
      t.outcome(str(r) + (full ? ' late' : ''))
    },
  }
}

function lost(k: string): Scenario {
  return {
    prop: 'P23', name: k.toLowerCase() + '-lost', quick: 8, thorough: 16,
    doc: 'a ' + k + ' call whose transport ends or fails at any point: both sides get to know',
    main: async (t) => {
      const p = new Pair(t, 'p')
      const how = t.of('end', 'fail', 'client closes', 'server closes', 'client resets', 'server resets')
      const ins = streaming(k) ? t.of([4], [0, 5]) : [3]
      const outs = k === 'Unary' || k === 'Client' ? [7] : t.of([8], [0, 9])
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      serverOf(impl(t, seen, outs, '')).handlePacketStream(p.b)
      const c = new Client(async () => p.a)
      let at = false
      t.event('', 'lose', () => {
        at = true
        if (how === 'end') p.fail()
        if (how === 'fail') p.fail(new Error('network'))
        if (how === 'client closes') void p.a.close()
        if (how === 'server closes') void p.b.close()
        if (how === 'client resets') p.a.abort(new Error('local'))
        if (how === 'server resets') p.b.abort(new Error('local'))
      })
      const r0: Result = { got: [], done: false }
      const r = await call(c, k, streaming(k) ? feed(t, 'in', ins) : ins[0], undefined, 'svc', k, r0)
      if (r.err && !at) t.failf('the call failed before its transport: ' + r.err)
      if (!r.err && r.got.join() !== outs.join()) t.failf(`the call ended without an error after [${r.got}] of [${outs}]`)
      if (!prefix(r.got, outs)) t.failf(`the caller got [${r.got}] of [${outs}]`)
      if (!prefix(seen.reqs, ins)) t.failf(`the handler received [${seen.reqs}] of [${ins}]`)
      await settled(t, p, seen)
      if (seen.end && seen.reqs.length < ins.length) t.failf(`the handler saw the end of the requests after [${seen.reqs}] of [${ins}]`)
      t.outcome(how + ' ' + str(r))
    },
  }
}

const inputError = (k: string): Scenario => ({
  prop: 'P23', name: k.toLowerCase() + '-input-error', quick: 12, thorough: 16,
  doc: 'the requests of a ' + k + ' call fail after any number of them: the handler and the caller get the error',
  main: async (t) => {
    const p = new Pair(t, 'p', t.bool())
    const ins = t.of([], [4], [0, 5])
    const seen: Seen = { reqs: [], end: false, calls: 0 }
    const im: any = impl(t, seen, [7], '')
    let deaf: (() => void) | null = null
    if (t.bool()) {
      // the handler reads its requests only when nothing else happens any more
      const whenTold = new Promise<void>((r) => (deaf = r))
      const f = im[k]
      im[k] =
        k === 'Client'
          ? async (reqs: any) => {
              await whenTold
              return f(reqs)
            }
          : async function* (reqs: any) {
              await whenTold
              yield* f(reqs)
            }
    }
    serverOf(im).handlePacketStream(p.b)
    const r0: Result = { got: [], done: false }
    const over = call(new Client(async () => p.a), k, feed(t, 'in', ins, 'no more'), undefined, 'svc', k, r0)
    if (deaf) {
      await t.idle()
      if (!r0.done) t.failf('the caller does not get the error of its own requests')
      ;(deaf as any)()
    }
    const r = await over
    if (r.err !== 'no more') t.failf('the caller got ' + str(r))
    await settled(t, p, seen)
    if (seen.err !== 'no more' || !prefix(seen.reqs, ins)) t.failf(`the handler received [${seen.reqs}] and ${seen.err}`)
    t.outcome(str(r) + seen.reqs)
  },
})

// styles: handlers and callers that do not take turns.
const styles: Scenario = {
  prop: 'P23', name: 'bidi-styles', quick: 4, thorough: 6, weight: 2,
  doc: 'a Bidi call whose handler answers each request, answers without reading, or reads late; whose caller waits for each answer or not',
  main: async (t) => {
    const how = t.of('echo', 'free', 'late', 'first')
    const n = t.choose(4)
    const pingpong = how === 'echo' && t.bool()
    const p = new Pair(t, 'p', t.bool())
    const reqs: number[] = []
    let end = false
    const im = {
      Bidi: (src: AsyncIterable<any>) => {
        const drain = async () => {
          for await (const r of src) reqs.push(r.n)
          end = true
        }
        return (async function* () {
          if (how === 'echo') {
            for await (const r of src) {
              reqs.push(r.n)
              yield { n: r.n + 10 }
            }
            end = true
          } else if (how === 'first') {
            for await (const r of src) {
              reqs.push(r.n)
              yield { n: 10 }
              break
            }
          } else {
            if (how === 'free') t.go('drain', drain)
            for (let i = 0; i < 3; i++) {
              await step(t, 'answer')
              yield { n: 10 + i }
            }
            if (how === 'late') await drain()
          }
        })()
      },
    }
    serverOf(im).handlePacketStream(p.b)
    const got: number[] = []
    let wake: (() => void) | null = null
    const ins = [1, 2, 3].slice(0, n)
    async function* src() {
      for (const [i, x] of ins.entries()) {
        await step(t, 'in' + x)
        yield bytes(x)
        if (pingpong) while (got.length <= i) await new Promise<void>((r) => (wake = r))
      }
    }
    let err: string | null = null
    try {
      for await (const m of new Client(async () => p.a).bidirectionalStreamingRequest('svc', 'Bidi', src())) {
        got.push(m.length ? m[0] : 0)
        const w: any = wake
        wake = null
        w?.()
      }
      err = ''
    } catch (e: any) {
      err = e.message
    }
    await t.idle()
    const want = how === 'echo' ? ins.map((x) => x + 10) : how === 'first' ? (n ? [10] : []) : [10, 11, 12]
    if (got.join() !== want.join() || err) t.failf(`the caller got [${got}] of [${want}] and ${err}`)
    if (how === 'echo' || how === 'late') {
      if (reqs.join() !== ins.join() || !end) t.failf(`the handler received [${reqs}] of [${ins}]`)
    } else if (!prefix(reqs, ins)) t.failf(`the handler received [${reqs}] of [${ins}]`)
    const left = p.released()
    if (left) t.failf(left)
    t.outcome(how + got)
  },
}

// bad handlers and bad messages: the error reaches the caller, and the call ends.
const odd: Scenario = {
  prop: 'P23', name: 'handler-faults', quick: 12, thorough: 16,
  doc: 'unknown methods, undecodable requests, unencodable answers, handlers that throw anything or answer nothing',
  main: async (t) => {
    const p = new Pair(t, 'p', t.bool())
    const k = t.of(...kinds)
    const how = t.of('method', 'service', 'request', 'answer', 'sync', 'string', 'empty', 'undefined', 'value', 'null')
    const seen: Seen = { reqs: [], end: false, calls: 0 }
    const h: any = impl(t, seen, [how === 'answer' ? 254 : 7], '')
    let want: string | null = null
    const raise = (e: any) => () => {
      throw e
    }
    let throws = true
    switch (how) {
      case 'method': want = 'not found: svc/Nope'; break
      case 'service': want = 'not found: other/' + k; break
      case 'request': want = 'bad message'; break
      case 'answer': want = 'cannot encode'; break
      case 'sync': h[k] = raise(new Error('sync')); want = 'sync'; break
      case 'string': h[k] = raise('text'); want = 'error calling implementation: text'; break
      case 'empty': h[k] = raise(new Error('')); break
      case 'undefined': h[k] = () => undefined; want = 'return value was undefined'; break
      case 'value': h[k] = () => ({ n: 1 }); break
      case 'null': h[k] = async () => null; break
      default: throws = false
    }
    serverOf(h).handlePacketStream(p.b)
    const n = how === 'request' ? 255 : 3
    const c = new Client(async () => p.a)
    const input = streaming(k)
      ? (async function* () {
          yield new Uint8Array([n])
        })()
      : n
    let r: Result
    if (!streaming(k) && n === 255) {
      // the message cannot be encoded by the test's own type
      r = { got: [], done: false }
      try {
        if (k === 'Unary') await c.request('svc', k, new Uint8Array([255]))
        else for await (const m of c.serverStreamingRequest('svc', k, new Uint8Array([255]))) r.got.push(m[0])
      } catch (e: any) {
        r.err = e?.message
      }
    } else r = await call(c, k, input, undefined, how === 'service' ? 'other' : 'svc', how === 'method' ? 'Nope' : k)
    if (throws && !r.err) t.failf(`${how}: the call succeeded: ${str(r)}`)
    if (want && r.err !== want) t.failf(`${how}: the caller got ${str(r)}`)
    await t.idle()
    const rel = p.released()
    if (rel) t.failf(how + ': ' + rel)
    t.outcome(k + ' ' + how + ' ' + str(r))
  },
}

// answerFirst: the result of a call with one answer is its first answer, whatever comes afterwards.
const answerFirst: Scenario = {
  prop: 'P23', name: 'answer-first', quick: 6, thorough: 12,
  doc: 'a server that answers a Unary or Client call and then says nothing, fails, or loses the connection: the caller has its answer',
  main: async (t) => {
    const k = t.of('Unary', 'Client')
    const then = t.of('nothing', 'complete', 'error', 'more', 'cancel', 'end', 'lost')
    const p = new Pair(t, 'p', t.bool())
    let told = false
    t.go('requests', async () => {
      try {
        for await (const d of p.b.source) void d
      } catch {}
      told = true
    })
    const say = (value: any) => Packet.toBinary({ body: { case: 'callData', value } })
    let gone = false
    t.go('server', () =>
      p.b
        .sink(
          (async function* () {
            await step(t, 'answer')
            yield say({ data: bytes(7) })
            await step(t, 'then')
            if (then === 'complete') yield say({ complete: true })
            if (then === 'error') yield say({ complete: true, error: 'late' })
            if (then === 'more') yield say({ data: bytes(8) })
            if (then === 'cancel') yield Packet.toBinary({ body: { case: 'callCancel', value: true } })
            if (then === 'end') return
            if (then === 'lost') {
              gone = true
              return p.fail(new Error('network'))
            }
            await t.idle()
            await t.idle()
          })(),
        )
        .catch(() => {}),
    )
    // the requests go on until the answer is there
    let finish = () => {}
    const over = new Promise<void>((f) => (finish = f))
    async function* input() {
      yield bytes(1)
      await over
    }
    const r = await call(new Client(async () => p.a), k, k === 'Unary' ? 1 : input())
    finish()
    // losing the connection may overtake the answer
    if (!(gone && r.err) && str(r) !== '7') t.failf(`${k}, ${then}: the caller got ${str(r)}`)
    await t.idle()
    if (!told) t.failf(`${k}, ${then}: the server is not told that the call is over`)
    t.outcome(k + then + str(r))
  },
}

const concurrent: Scenario = {
  prop: 'P23', name: 'concurrent', quick: 3, thorough: 5, weight: 2,
  doc: 'two calls of any kinds at once, one of which may be aborted or lose its transport: neither sees the other',
  main: async (t) => {
    const ks = [t.of(...kinds), t.of(...kinds)]
    const how = t.of('', 'abort', 'lost')
    const ps = [new Pair(t, 'p'), new Pair(t, 'q')]
    const seens: Seen[] = [0, 1].map(() => ({ reqs: [], end: false, calls: 0 }))
    const outs = [[11], [21]]
    const ins = [[12], [22]]
    const mux = createMux()
    for (const i of [0, 1]) mux.register(createHandler(definition, impl(t, seens[i], outs[i], ''), 'svc' + i))
    const srv = new Server(mux.lookupMethod)
    srv.handlePacketStream(ps[0].b)
    srv.handlePacketStream(ps[1].b)
    let opened = 0
    const c = new Client(async () => ps[opened++].a)
    const ac = new AbortController()
    if (how === 'abort') t.event('', 'abort', () => ac.abort())
    if (how === 'lost') t.event('', 'lost', () => ps[0].fail(new Error('network')))
    const rs = await Promise.all(
      [0, 1].map((i) =>
        call(c, ks[i], streaming(ks[i]) ? feed(t, 'in', ins[i]) : ins[i][0], i === 0 ? ac.signal : undefined, 'svc' + i),
      ),
    )
    for (const i of [0, 1]) {
      if (!prefix(seens[i].reqs, ins[i])) t.failf(`call ${i}: the handler received [${seens[i].reqs}]`)
      if (!prefix(rs[i].got, outs[i])) t.failf(`call ${i}: the caller got ` + str(rs[i]))
    }
    if (rs[1].err) t.failf('the other call failed: ' + rs[1].err)
    if (rs[1].got.length !== 1) t.failf('the other call got ' + str(rs[1]))
    if (!how && (rs[0].err || rs[0].got.length !== 1)) t.failf('the call got ' + str(rs[0]))
    await t.idle()
    for (const p of ps) if (p.released()) t.failf(p.released())
    t.outcome(rs.map(str).join(' '))
  },
}

const open: Scenario = {
  prop: 'P23', name: 'open', quick: 12, thorough: 16,
  doc: 'the stream opens late, fails to open, or the call is aborted before; the opener is set after the call',
  main: async (t) => {
    const k = t.of(...kinds)
    const how = t.of('late', 'fails', 'aborted', 'unset')
    const p = new Pair(t, 'p')
    const seen: Seen = { reqs: [], end: false, calls: 0 }
    serverOf(impl(t, seen, [7], '')).handlePacketStream(p.b)
    let opens = 0
    const opener = async () => {
      opens++
      await step(t, 'open')
      if (how === 'fails') throw new Error('no stream')
      return p.a
    }
    const c = new Client(how === 'unset' ? undefined : opener)
    if (how === 'unset') t.event('', 'set', () => c.setOpenStreamFn(opener))
    const ac = new AbortController()
    if (how === 'aborted') ac.abort()
    const r = await call(c, k, streaming(k) ? feed(t, 'in', [3]) : 3, ac.signal)
    if (how === 'fails') {
      if (r.err !== 'no stream') t.failf('the caller got ' + str(r))
    } else if (how === 'aborted') {
      if (r.err !== ERR_RPC_ABORT) t.failf('the caller got ' + str(r))
      if (opens) t.failf('a stream was opened for an aborted call')
    } else {
      if (r.err || r.got.join() !== '7') t.failf('the caller got ' + str(r))
      if (opens !== 1) t.failf(`${opens} streams were opened`)
      await settled(t, p, seen)
    }
    await t.idle()
    t.outcome(k + ' ' + str(r))
  },
}

const openAbort: Scenario = {
  prop: 'P23', name: 'open-abort', quick: 12, thorough: 16,
  doc: 'the call is aborted while its stream is being opened: it fails and the stream is released',
  main: async (t) => {
    const k = t.of(...kinds)
    const p = new Pair(t, 'p')
    const seen: Seen = { reqs: [], end: false, calls: 0 }
    serverOf(impl(t, seen, [7], '')).handlePacketStream(p.b)
    const ac = new AbortController()
    let before = false
    t.event('', 'abort', () => {
      before = !r0.done
      ac.abort()
    })
    const c = new Client(async () => {
      await step(t, 'open')
      return p.a
    })
    const r0: Result = { got: [], done: false }
    const r = await call(c, k, streaming(k) ? feed(t, 'in', [3]) : 3, ac.signal, 'svc', k, r0)
    if (r.err && r.err !== ERR_RPC_ABORT) t.failf('the caller got ' + str(r))
    if (!r.err && r.got.join() !== '7') t.failf('the caller got ' + str(r))
    await settled(t, p, seen)
    if (before && !r.err) t.failf('the call was aborted and succeeded')
    t.outcome(k + ' ' + str(r))
  },
}

const signal: Scenario = {
  prop: 'P23', name: 'signal', quick: 4, thorough: 12,
  doc: 'a long-lived abort signal shared by calls that succeed, fail, lose their transport or never open it: nothing stays attached to it and aborting it afterwards has no effect',
  main: async (t) => {
    const ac = new AbortController()
    const k = t.of(...kinds)
    const ends = [t.of('ok', 'error', 'lost', 'unopened'), t.of('', 'ok', 'error')].filter((x) => x)
    const ps: Pair[] = []
    const out: string[] = []
    for (const how of ends) {
      const p = new Pair(t, 'p' + ps.length, t.bool())
      const seen: Seen = { reqs: [], end: false, calls: 0 }
      serverOf(impl(t, seen, [7], how === 'error' ? 'boom' : '')).handlePacketStream(p.b)
      const c = new Client(async () => {
        if (how === 'unopened') throw new Error('no stream')
        return p.a
      })
      if (how === 'lost') t.event('', 'lose', () => p.fail(new Error('network')))
      if (how !== 'unopened') ps.push(p)
      out.push(str(await call(c, k, streaming(k) ? feed(t, 'in', [3]) : 3, ac.signal)))
      await t.idle()
    }
    const n = getEventListeners(ac.signal, 'abort').length
    if (n) t.failf(`${n} listeners stay attached to the signal after ${ends.length} finished calls`)
    const sent = () => ps.map((p) => p.a.sent.length + '/' + p.b.sent.length).join()
    const before = sent()
    ac.abort()
    await t.idle()
    if (sent() !== before) t.failf(`aborting after the calls: packets ${before} before, ${sent()} after`)
    t.outcome(out.join(' '))
  },
}

export const p23: Scenario[] = [
  signal,
  ...kinds.map(basic), ...kinds.map(aborted), ...kinds.map(lost), inputError('Client'), inputError('Bidi'), odd, answerFirst, styles, concurrent, open, openAbort,
]
