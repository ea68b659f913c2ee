// Controlled transports and call harness for the TypeScript half.
import { T } from './engine'
import { Client } from '@repo/srpc/client'
import { Server } from '@repo/srpc/server'
import { createMux } from '@repo/srpc/mux'
import { createHandler } from '@repo/srpc/handler'
import { MethodKind } from '@aptre/protobuf-es-lite'

export const bytes = (...b: number[]) => new Uint8Array(b)
export const hex = (b: Uint8Array) => Buffer.from(b).toString('hex')
export const sameBytes = (a: Uint8Array, b: Uint8Array) => hex(a) === hex(b)

// step resolves when the scheduler says so.
export function step(t: T, label: string, key = ''): Promise<void> {
  return new Promise((r) => t.event(key, label, () => r()))
}

// Inbox is what a reader of a transport sees.
export class Inbox<X> {
  q: { v?: X; end?: boolean; err?: Error }[] = []
  wake: (() => void) | null = null
  done = false // ended towards the reader
  dropped = false // the reader went away
  put(i: { v?: X; end?: boolean; err?: Error }) {
    this.q.push(i)
    this.wake?.()
    this.wake = null
  }
  // clear drops what is queued and fails or ends the reader.
  stop(err?: Error) {
    if (this.done) return
    this.q = []
    this.put(err ? { err } : { end: true })
  }
  async *read(): AsyncGenerator<X> {
    try {
      for (;;) {
        while (this.q.length === 0) await new Promise<void>((r) => (this.wake = r))
        const i = this.q.shift()!
        if (i.err) throw i.err
        if (i.end) return
        yield i.v!
      }
    } finally {
      this.done = true
      this.dropped = true
    }
  }
}

export interface End<X> {
  source: AsyncGenerator<X>
  sink: (s: any) => Promise<void>
  close: (err?: Error) => Promise<void>
  abort: (err: Error) => void
  box: Inbox<X>
  sent: X[]
  wrote: boolean // the writing half is closed
  sinks: number
}

// Pair is a connected pair of message streams. Deliveries are events, in order in each direction.
export class Pair<X = Uint8Array> {
  a: End<X>
  b: End<X>
  down = false
  // both: closing the writing side closes the reading side too (as a multiplexed stream does)
  constructor(
    readonly t: T,
    readonly name: string,
    readonly both = false,
  ) {
    const A = new Inbox<X>()
    const B = new Inbox<X>()
    this.a = this.end('>', A, B)
    this.b = this.end('<', B, A)
  }
  private end(dir: string, me: Inbox<X>, peer: Inbox<X>): End<X> {
    const key = this.name + dir
    const e: End<X> = {
      box: me,
      sent: [],
      wrote: false,
      sinks: 0,
      source: me.read(),
      sink: async (src: any) => {
        e.sinks++
        try {
          for await (const x of src) {
            if (this.down) throw new Error('transport failed')
            e.sent.push(x)
            this.t.event(key, key + 'msg', () => {
              if (!this.down) peer.put({ v: x })
            })
          }
        } catch (err) {
          e.abort(err as Error)
          throw err
        }
        fin()
      },
      close: async () => fin(),
      abort: (err: Error) => {
        if (e.wrote) return
        e.wrote = true
        this.t.event(key, key + 'reset', () => {
          if (!this.down) peer.put({ err: new Error('stream reset') })
        })
        me.stop(err)
      },
    }
    const fin = () => {
      if (e.wrote) return
      e.wrote = true
      this.t.event(key, key + 'eof', () => {
        if (!this.down) peer.put({ end: true })
      })
      if (this.both) me.stop()
    }
    return e
  }
  // fail breaks the transport: both readers see it, whatever was under way is lost.
  fail(err?: Error) {
    if (this.down) return
    this.down = true
    this.a.box.stop(err)
    this.b.box.stop(err)
  }
  // released says whether both sides have let go of the stream.
  released(): string {
    const o: string[] = []
    if (!this.down && !this.a.wrote) o.push(this.name + ': the client never closed its side')
    if (!this.down && !this.b.wrote) o.push(this.name + ': the server never closed its side')
    if (!this.a.box.done && !this.a.box.dropped) o.push(this.name + ': the client still reads')
    if (!this.b.box.done && !this.b.box.dropped) o.push(this.name + ': the server still reads')
    return o.join('; ')
  }
}

// Num is a message with one number; zero is encoded as no bytes at all and 255 cannot be decoded.
export interface Num {
  n: number
}
export const Num: any = {
  typeName: 'num',
  fromBinary: (b: Uint8Array): Num => {
    if (b.length && b[0] === 255) throw new Error('bad message')
    return { n: b.length ? b[0] : 0 }
  },
  toBinary: (m: Num): Uint8Array => {
    if (m.n === 254) throw new Error('cannot encode')
    return m.n === 0 ? bytes() : bytes(m.n)
  },
}
export const enc = (n: number) => Num.toBinary({ n })
export const dec = (b: Uint8Array) => Num.fromBinary(b).n

export const definition: any = {
  typeName: 'svc',
  methods: {
    Unary: { name: 'Unary', I: Num, O: Num, kind: MethodKind.Unary },
    Server: { name: 'Server', I: Num, O: Num, kind: MethodKind.ServerStreaming },
    Client: { name: 'Client', I: Num, O: Num, kind: MethodKind.ClientStreaming },
    Bidi: { name: 'Bidi', I: Num, O: Num, kind: MethodKind.BiDiStreaming },
  },
}
export const kinds = ['Unary', 'Server', 'Client', 'Bidi']

export function serverOf(impl: any, id?: string): Server {
  const mux = createMux()
  mux.register(createHandler(definition, impl, id))
  return new Server(mux.lookupMethod)
}

// Result is what the caller of a method has seen.
export interface Result {
  got: number[]
  err?: string
  done: boolean
}

// call calls a method and collects what comes out.
export async function call(
  c: Client,
  kind: string,
  input: AsyncIterable<Uint8Array> | number,
  signal?: AbortSignal,
  service = 'svc',
  method = kind,
  res: Result = { got: [], done: false },
): Promise<Result> {
  const one = typeof input === 'number' ? enc(input) : bytes()
  try {
    switch (kind) {
      case 'Unary':
        res.got.push(dec(await c.request(service, method, one, signal)))
        break
      case 'Client':
        res.got.push(dec(await c.clientStreamingRequest(service, method, input as any, signal)))
        break
      case 'Server':
        for await (const m of c.serverStreamingRequest(service, method, one, signal)) res.got.push(dec(m))
        break
      case 'Bidi':
        for await (const m of c.bidirectionalStreamingRequest(service, method, input as any, signal)) res.got.push(dec(m))
        break
    }
  } catch (e: any) {
    res.err = e?.message ?? String(e)
  }
  res.done = true
  return res
}

// feed yields numbers, each when the scheduler says so, and then ends or fails.
export async function* feed(t: T, name: string, list: number[], err?: string): AsyncGenerator<Uint8Array> {
  for (const n of list) {
    await step(t, name + n)
    yield enc(n)
  }
  if (err) throw new Error(err)
}
export const prefix = (a: number[], b: number[]) => a.every((x, i) => b[i] === x)
