// uint8arraylist 2 over one flat array
const mark = Symbol.for('@achingbrain/uint8arraylist')
export class Uint8ArrayList {
  private b: Uint8Array
  constructor(...data: any[]) {
    ;(this as any)[mark] = true
    this.b = new Uint8Array(0)
    this.append(...data)
  }
  get length() {
    return this.b.length
  }
  get byteLength() {
    return this.b.length
  }
  append(...data: any[]) {
    for (const d of data) {
      const x: Uint8Array = d instanceof Uint8Array ? d : d.b
      const n = new Uint8Array(this.b.length + x.length)
      n.set(this.b)
      n.set(x, this.b.length)
      this.b = n
    }
  }
  consume(n: number) {
    n = Math.trunc(n)
    if (Number.isNaN(n) || n <= 0) return
    this.b = this.b.slice(Math.min(n, this.b.length))
  }
  subarray(a?: number, e?: number) {
    return this.b.slice(a, e)
  }
  slice(a?: number, e?: number) {
    return this.b.slice(a, e)
  }
  sublist(a?: number, e?: number) {
    if ((a ?? 0) < 0 || (e ?? this.b.length) > this.b.length) throw new RangeError('index is out of bounds')
    return new Uint8ArrayList(this.b.slice(a, e))
  }
  getUint32(off: number, le?: boolean) {
    return new DataView(this.b.buffer, this.b.byteOffset, this.b.length).getUint32(off, le)
  }
  setUint32(off: number, v: number, le?: boolean) {
    new DataView(this.b.buffer, this.b.byteOffset, this.b.length).setUint32(off, v, le)
  }
  static fromUint8Arrays(bufs: Uint8Array[], _length?: number) {
    return new Uint8ArrayList(...bufs)
  }
  appendAll(data: any[]) {
    this.append(...data)
  }
  prepend(...data: any[]) {
    const l = new Uint8ArrayList(...data, this)
    this.b = l.b
  }
  prependAll(data: any[]) {
    this.prepend(...data)
  }
  get(i: number) {
    if (i < 0 || i >= this.b.length) throw new RangeError('index is out of bounds')
    return this.b[i]
  }
  set(i: number, v: number) {
    if (i < 0 || i >= this.b.length) throw new RangeError('index is out of bounds')
    this.b[i] = v
  }
  write(data: any, off = 0) {
    this.b.set(data instanceof Uint8Array ? data : data.b, off)
  }
  indexOf(x: any, off = 0) {
    const n: Uint8Array = x instanceof Uint8Array ? x : x.b
    for (let i = off; i + n.length <= this.b.length; i++) if (n.every((v, j) => v === this.b[i + j])) return i
    return -1
  }
  equals(o: any) {
    return o instanceof Uint8ArrayList && o.b.length === this.b.length && o.b.every((v, i) => v === this.b[i])
  }
  private view() {
    return new DataView(this.b.buffer, this.b.byteOffset, this.b.length)
  }
  getInt8(off: number) {
    return this.view().getInt8(off)
  }
  getUint8(off: number) {
    return this.view().getUint8(off)
  }
  getInt16(off: number, le?: boolean) {
    return this.view().getInt16(off, le)
  }
  getUint16(off: number, le?: boolean) {
    return this.view().getUint16(off, le)
  }
  getInt32(off: number, le?: boolean) {
    return this.view().getInt32(off, le)
  }
  getBigInt64(off: number, le?: boolean) {
    return this.view().getBigInt64(off, le)
  }
  setInt8(off: number, v: number) {
    this.view().setInt8(off, v)
  }
  setUint8(off: number, v: number) {
    this.view().setUint8(off, v)
  }
  setInt16(off: number, v: number, le?: boolean) {
    this.view().setInt16(off, v, le)
  }
  setUint16(off: number, v: number, le?: boolean) {
    this.view().setUint16(off, v, le)
  }
  setInt32(off: number, v: number, le?: boolean) {
    this.view().setInt32(off, v, le)
  }
  setBigInt64(off: number, v: bigint, le?: boolean) {
    this.view().setBigInt64(off, v, le)
  }
  *[Symbol.iterator]() {
    yield this.b
  }
}
export const isUint8ArrayList = (v: any): v is Uint8ArrayList => Boolean(v?.[mark])
