// The other language: a Go client or server that the explorer drives (see mc/props/far.go).
import { spawn, execFileSync } from 'node:child_process'
import * as fs from 'node:fs'
import * as os from 'node:os'
import * as path from 'node:path'
import { T } from './engine'
import { Inbox } from './lib'
import { streamToPacketStream, type PacketStream } from '@repo/srpc/stream'

let to = -1
let from = -1
let rest = ''
let busy = false // a session is open
const buf = Buffer.alloc(1 << 20)

function start() {
  const bin = process.env.VERIF_FAR
  if (!bin) throw new Error('VERIF_FAR is not set')
  const d = fs.mkdtempSync(path.join(process.env.TMPDIR || os.tmpdir(), 'far-'))
  const a = path.join(d, 'in')
  const b = path.join(d, 'out')
  execFileSync('mkfifo', [a, b])
  const p = spawn(bin, ['-far', a + ',' + b], { stdio: ['ignore', 'inherit', 'inherit'], env: { ...process.env, GOMAXPROCS: '1', GOGC: 'off', GOMEMLIMIT: '2GiB' } })
  p.unref()
  to = fs.openSync(a, 'w')
  from = fs.openSync(b, 'r')
  fs.rmSync(d, { recursive: true })
}

// ask sends a line and reads the answer.
function ask(line: string): string[] {
  if (to < 0) start()
  fs.writeSync(to, line + '\n')
  const out: string[] = []
  for (;;) {
    let i: number
    while ((i = rest.indexOf('\n')) >= 0) {
      const l = rest.slice(0, i)
      rest = rest.slice(i + 1)
      if (l === '.') return out
      out.push(l)
    }
    const n = fs.readSync(from, buf, 0, buf.length, null)
    if (n === 0) {
      to = -1
      busy = false
      throw new Error('the Go end crashed')
    }
    rest += buf.toString('latin1', 0, n)
  }
}

export const hexs = (s: string) => Buffer.from(s, 'utf8').toString('hex')
const text = (h: string) => Buffer.from(h ?? '', 'hex').toString('utf8')
export const listed = (l: string[]) => 'l' + l.map((x) => ',' + hexs(x)).join('')

// Wire is a byte stream between the two ends. Deliveries are events, in order in each direction.
class Wire {
  box = new Inbox<Uint8Array>()
  wrote = false // this side closed its writing half
  shut = false // the Go side closed the stream
  down = false
  constructor(
    readonly far: Far,
    readonly id: string,
  ) {}
  packets(): PacketStream {
    const t = this.far.t
    const key = this.id + '>'
    const fin = () => {
      if (this.wrote) return
      this.wrote = true
      t.event(key, key + 'eof', () => {
        if (!this.down) this.far.run('eof ' + this.id + (this.far.both ? ' both' : ''))
      })
      if (this.far.both) this.box.stop()
    }
    const s: any = {
      source: this.box.read(),
      sink: async (src: any) => {
        for await (const x of src) {
          if (this.down) throw new Error('transport failed')
          const b = x.subarray()
          // small writes travel one byte at a time if the scenario says so
          t.event(key, key + 'data', () => {
            if (this.down || this.shut) return
            for (const c of this.far.cut(b)) this.far.run('in ' + this.id + ' ' + Buffer.from(c).toString('hex'))
          })
        }
        fin()
      },
      close: async () => fin(),
      abort: () => fin(),
    }
    return streamToPacketStream(s)
  }
  // fail breaks the stream: both ends see it and what is under way is lost.
  fail(err?: Error) {
    if (this.down) return
    this.down = true
    this.box.stop(err)
    if (!this.shut) this.far.run('fail ' + this.id)
  }
}

// Far is one session.
export class Far {
  wires = new Map<string, Wire>()
  log: [string, string][] = []
  accept: (p: PacketStream) => void = () => {}
  private n = 0
  // both: closing the writing side closes the reading side too
  constructor(
    readonly t: T,
    args: Record<string, string>,
    readonly both = false,
    readonly bytewise = false,
  ) {
    if (busy) ask('end')
    busy = true
    this.take(ask(Object.entries({ x: '', ...args }).map(([k, v]) => k + '=' + v).join(' ')))
  }
  cut(b: Uint8Array): Uint8Array[] {
    if (!this.bytewise || b.length > 64) return [b]
    return [...b].map((x) => Uint8Array.of(x))
  }
  run(line: string) {
    this.take(ask(line))
  }
  private take(l: string[]) {
    for (const x of l) {
      const [c, id, more] = x.split(' ')
      const key = id + '<'
      if (c === 'o') {
        const w = this.wires.get(id)!
        const b = new Uint8Array(Buffer.from(more, 'hex'))
        this.t.event(key, key + 'data', () => {
          if (!w.down) for (const p of this.cut(b)) w.box.put({ v: p })
        })
      } else if (c === 'c') {
        const w = this.wires.get(id)!
        w.shut = true
        this.t.event(key, key + 'eof', () => {
          if (!w.down) w.box.put({ end: true })
        })
      } else if (c === 'n') {
        const w = new Wire(this, id)
        this.wires.set(id, w)
        this.t.event(key, key + 'open', () => this.accept(w.packets()))
      } else if (c === 'g') {
        this.t.event('', 'go ' + id, () => this.run('go ' + id))
      } else if (c === 'l') {
        this.log.push([id, text(more)])
      }
    }
  }
  // open opens a stream to the server there.
  open(): PacketStream {
    const w = new Wire(this, 't' + this.n++)
    this.wires.set(w.id, w)
    this.t.event(w.id + '>', w.id + '>open', () => {
      if (!w.down) this.run('conn ' + w.id)
    })
    return w.packets()
  }
  // all lists what was logged under a name.
  all(what: string): string[] {
    return this.log.filter((x) => x[0] === what).map((x) => x[1])
  }
  wire(i = 0): Wire | undefined {
    return [...this.wires.values()][i]
  }
  // released says whether both sides have let go of every stream.
  released(): string {
    const o: string[] = []
    for (const w of this.wires.values()) {
      if (!w.down && !w.wrote) o.push(w.id + ': the TypeScript end never closed its side')
      if (!w.down && !w.shut) o.push(w.id + ': the Go end never closed the stream')
      if (!w.box.done && !w.box.dropped) o.push(w.id + ': the TypeScript end still reads')
    }
    return o.join('; ')
  }
  // end ends the session; what is left over on the Go side is a violation.
  end() {
    busy = false
    for (const l of ask('end')) if (l.startsWith('v ') && l.length > 2) this.t.failf('Go: ' + text(l.slice(2)))
  }
}
