// a stream multiplexer with the interface of @chainsafe/libp2p-yamux and none of its flow control:
// frames are [type, stream id (2 bytes), length (4 bytes), payload]; both halves of a stream close on their own, close() closes both
import { pushable } from 'it-pushable'
import { Uint8ArrayList } from 'uint8arraylist'

const OPEN = 1, DATA = 2, FIN = 3, RST = 4, HEAD = 7

class Stream {
  private in = pushable<any>({ objectMode: true })
  source: AsyncGenerator<any>
  readDone = false
  writeDone = false
  status = 'open'
  constructor(private mux: Muxer, readonly id: number) {
    const q = this.in
    this.source = q
  }
  sink = async (src: any) => {
    try {
      for await (const x of src) {
        if (this.writeDone) throw new Error('stream closed for writing')
        const b: Uint8Array = x instanceof Uint8Array ? x : x.subarray()
        this.mux.send(DATA, this.id, b)
      }
    } catch (err) {
      this.abort(err as Error)
      throw err
    }
    await this.closeWrite()
  }
  data(b: Uint8Array) {
    if (!this.readDone) this.in.push(new Uint8ArrayList(b))
  }
  fin() {
    this.readDone = true
    this.in.end()
    this.gone()
  }
  reset(err: Error) {
    this.readDone = this.writeDone = true
    this.in.end(err)
    this.gone()
  }
  async closeWrite() {
    if (this.writeDone) return
    this.writeDone = true
    this.mux.send(FIN, this.id)
    this.gone()
  }
  async closeRead() {
    if (this.readDone) return
    this.readDone = true
    this.in.end()
    this.gone()
  }
  async close() {
    await this.closeRead()
    await this.closeWrite()
  }
  abort(err: Error) {
    if (this.readDone && this.writeDone) return
    this.mux.send(RST, this.id)
    this.reset(err)
  }
  private gone() {
    if (this.readDone && this.writeDone) {
      this.status = 'closed'
      this.mux.remove(this.id)
    }
  }
}

export class Muxer {
  protocol = 'test'
  private all = new Map<number, Stream>()
  private out = pushable<any>({ objectMode: true })
  private next: number
  closed = false
  private closeNow!: () => void
  private closing = new Promise<void>((r) => (this.closeNow = r))
  source: AsyncGenerator<any>
  constructor(private init: any) {
    this.next = init.direction === 'inbound' ? 2 : 1
    this.source = this.out
  }
  get streams() {
    return [...this.all.values()]
  }
  send(type: number, id: number, b = new Uint8Array(0)) {
    if (this.closed) return
    const f = new Uint8Array(HEAD + b.length)
    const v = new DataView(f.buffer)
    f[0] = type
    v.setUint16(1, id)
    v.setUint32(3, b.length)
    f.set(b, HEAD)
    this.out.push(type === DATA ? new Uint8ArrayList(f.subarray(0, HEAD), f.subarray(HEAD)) : f)
  }
  remove(id: number) {
    this.all.delete(id)
  }
  newStream() {
    if (this.closed) throw new Error('muxer closed')
    const s = new Stream(this, this.next)
    this.next += 2
    this.all.set(s.id, s)
    this.send(OPEN, s.id)
    return s
  }
  sink = async (src: any) => {
    let buf = new Uint8Array(0)
    try {
      // closing the muxer ends this, whatever the source does
      const it = src[Symbol.asyncIterator] ? src[Symbol.asyncIterator]() : src[Symbol.iterator]()
      const stop = this.closing.then(() => ({ done: true, value: undefined }))
      for (;;) {
        const got: any = await Promise.race([it.next(), stop])
        if (got.done || this.closed) {
          void it.return?.()
          break
        }
        const c = got.value
        const b: Uint8Array = c instanceof Uint8Array ? c : c.subarray()
        const n = new Uint8Array(buf.length + b.length)
        n.set(buf)
        n.set(b, buf.length)
        buf = n
        while (buf.length >= HEAD) {
          const v = new DataView(buf.buffer)
          const len = v.getUint32(3)
          if (buf.length < HEAD + len) break
          const type = buf[0]
          const id = v.getUint16(1)
          const p = buf.slice(HEAD, HEAD + len)
          buf = buf.slice(HEAD + len)
          let s = this.all.get(id)
          if (type === OPEN) {
            s = new Stream(this, id)
            this.all.set(id, s)
            this.init.onIncomingStream?.(s)
          } else if (type === DATA) s?.data(p)
          else if (type === FIN) s?.fin()
          else if (type === RST) s?.reset(new Error('stream reset'))
        }
      }
      this.shut()
    } catch (err) {
      this.shut(err as Error)
    }
  }
  private shut(err?: Error) {
    if (this.closed) return
    this.closed = true
    this.closeNow()
    for (const s of this.streams) s.reset(err ?? new Error('muxer closed'))
    this.out.end()
  }
  async close() {
    this.shut()
  }
  abort(err: Error) {
    this.shut(err)
  }
}

// asked is what the latest multiplexer was made with
export const asked: { params?: any; init?: any } = {}
export const yamux = (params: any) => (_c: any) => ({
  protocol: 'test',
  createStreamMuxer: (init: any) => {
    asked.params = params
    asked.init = init
    return new Muxer(init)
  },
})
