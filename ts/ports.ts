// Controlled MessagePort and BroadcastChannel: every delivery is an event.
import { T } from './engine'

let T0: T
let names = new Map<string, FakeChannel[]>()
let seq = 0

// copyOf is what a structured clone keeps: no prototype, no symbols, the bytes as they are now
const copyOf = (d: any) => {
  if (typeof d !== 'object' || d === null) return d
  if (d instanceof Uint8Array) return d.slice()
  if (Array.isArray(d)) return [...d]
  return Object.fromEntries(Object.entries(d))
}

export class FakePort {
  peer!: FakePort
  name = ''
  closed = false
  started = false
  early: any[] = []
  private _on: any = null
  private ls: any[] = []
  posted: any[] = []
  set onmessage(f: any) {
    this._on = f
    this.start()
  }
  get onmessage() {
    return this._on
  }
  addEventListener(_k: string, f: any) {
    this.ls.push(f)
  }
  removeEventListener(_k: string, f: any) {
    this.ls = this.ls.filter((x) => x !== f)
  }
  start() {
    this.started = true
    const l = this.early
    this.early = []
    for (const x of l) this.arrive(x)
  }
  private arrive(data: any) {
    if (this.closed) return
    if (!this.started) {
      this.early.push(data)
      return
    }
    T0.event(this.name, 'port ' + this.name, () => {
      if (this.closed) return
      this._on?.({ data })
      for (const f of this.ls) f({ data })
    })
  }
  postMessage(data: any) {
    if (this.closed) return
    this.posted.push(data)
    // what is sent cannot be changed afterwards
    this.peer.arrive(copyOf(data))
  }
  close() {
    this.closed = true
  }
}

export class FakeChannel {
  closed = false
  onmessage: any = null
  private ls: any[] = []
  posted: any[] = []
  private id = ++seq
  constructor(readonly name: string) {
    names.set(name, [...(names.get(name) ?? []), this])
  }
  addEventListener(_k: string, f: any) {
    this.ls.push(f)
  }
  removeEventListener(_k: string, f: any) {
    this.ls = this.ls.filter((x) => x !== f)
  }
  postMessage(data: any) {
    if (this.closed) throw new Error('InvalidStateError: BroadcastChannel is closed.')
    this.posted.push(data)
    const copy = copyOf(data)
    for (const c of names.get(this.name)!) {
      if (c === this || c.closed) continue
      T0.event(this.name + c.id, 'channel ' + this.name, () => {
        if (c.closed) return
        const ev = { data: copy }
        c.onmessage?.(ev)
        for (const f of c.ls) f(ev)
      })
    }
  }
  close() {
    this.closed = true
  }
}
;(globalThis as any).MessagePort = FakePort
;(globalThis as any).BroadcastChannel = FakeChannel

export function ports(t: T): [FakePort, FakePort] {
  T0 = t
  const a = new FakePort()
  const b = new FakePort()
  a.peer = b
  b.peer = a
  a.name = '<'
  b.name = '>'
  return [a, b]
}
export function channels(t: T) {
  T0 = t
  names = new Map()
  seq = 0
}
