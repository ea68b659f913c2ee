// the part of @aptre/protobuf-es-lite that the repository uses: proto3 messages with
// string, bytes, bool, uint32 and message fields and oneofs
export const ScalarType = { UINT32: 13, BOOL: 8, STRING: 9, BYTES: 12 } as const
export enum MethodKind {
  Unary = 0,
  ServerStreaming = 1,
  ClientStreaming = 2,
  BiDiStreaming = 3,
}
export enum MethodIdempotency {
  NoSideEffects = 1,
  Idempotent = 2,
}
export type PartialFieldInfo = any
export interface MessageType<T> {
  readonly typeName: string
  readonly fields: any
  create(m?: T): T
  clone(m: T): T
  equals(a: T, b: T): boolean
  toBinary(m: T): Uint8Array
  fromBinary(b: Uint8Array): T
}
export type Message<T> = T
export type CompleteMessage<T> = T

const camel = (s: string) => s.replace(/_([a-z])/g, (_, c) => c.toUpperCase())

function varint(n: number): number[] {
  const o: number[] = []
  while (n > 127) {
    o.push((n & 127) | 128)
    n = Math.floor(n / 128)
  }
  o.push(n)
  return o
}

class Reader {
  pos = 0
  constructor(private b: Uint8Array) {}
  get more() {
    return this.pos < this.b.length
  }
  varint(): bigint {
    let v = 0n
    for (let i = 0n; i < 10n; i++) {
      if (this.pos >= this.b.length) throw new RangeError('premature EOF')
      const c = this.b[this.pos++]
      v |= BigInt(c & 127) << (7n * i)
      if (c < 128) return BigInt.asUintN(64, v)
    }
    throw new Error('invalid varint')
  }
  bytes(): Uint8Array {
    const n = Number(this.varint())
    if (n > this.b.length - this.pos) throw new RangeError('premature EOF')
    this.pos += n
    return this.b.slice(this.pos - n, this.pos)
  }
  skip(wt: number) {
    if (wt === 0) this.varint()
    else if (wt === 2) this.bytes()
    else if (wt === 1 || wt === 5) {
      this.pos += wt === 1 ? 8 : 4
      if (this.pos > this.b.length) throw new RangeError('premature EOF')
    } else throw new Error('cant skip wire type ' + wt)
  }
}

export function createMessageType(def: any): any {
  const fields = def.fields.map((f: any) => ({ ...f, local: camel(f.name) }))
  const get = (m: any, f: any) => {
    if (f.oneof) {
      const o = m[f.oneof]
      return o?.case === f.local ? o.value : undefined
    }
    return m[f.local]
  }
  const enc = (m: any): number[] => {
    const out: number[] = []
    for (const f of fields) {
      const v = get(m, f)
      if (v === undefined || v === null) continue
      if (f.kind === 'message') {
        const b = f.T().enc(v)
        out.push(...varint((f.no << 3) | 2), ...varint(b.length), ...b)
      } else if (f.T === ScalarType.BOOL || f.T === ScalarType.UINT32) {
        if (!v && !f.oneof) continue
        out.push(...varint(f.no << 3), ...varint(Number(v)))
      } else {
        const b = f.T === ScalarType.STRING ? new TextEncoder().encode(v) : v
        if (b.length === 0 && !f.oneof) continue
        out.push(...varint((f.no << 3) | 2), ...varint(b.length), ...b)
      }
    }
    return out
  }
  const dec = (b: Uint8Array): any => {
    const m: any = {}
    const r = new Reader(b)
    while (r.more) {
      const tag = Number(r.varint())
      const wt = tag & 7
      const f = fields.find((x: any) => x.no === tag >>> 3)
      if (tag >>> 3 === 0) throw new Error('illegal tag')
      const want = f && (f.kind === 'message' || f.T === ScalarType.STRING || f.T === ScalarType.BYTES ? 2 : 0)
      if (!f || want !== wt) {
        r.skip(wt)
        continue
      }
      let v: any
      if (f.kind === 'message') {
        v = f.T().fromBinary(r.bytes())
        const old = get(m, f)
        if (old) v = { ...old, ...v }
      } else if (f.T === ScalarType.BOOL) v = r.varint() !== 0n
      else if (f.T === ScalarType.UINT32) v = Number(BigInt.asUintN(32, r.varint()))
      else if (f.T === ScalarType.STRING) v = new TextDecoder().decode(r.bytes())
      else v = r.bytes()
      if (f.oneof) m[f.oneof] = { case: f.local, value: v }
      else m[f.local] = v
    }
    return m
  }
  return {
    typeName: def.typeName,
    fields,
    enc,
    create: (m: any) => ({ ...m }),
    clone: (m: any) => structuredClone(m),
    equals: (a: any, b: any) => a === b || (!!a && !!b && String(enc(a)) === String(enc(b))),
    toBinary: (m: any) => new Uint8Array(enc(m)),
    fromBinary: (b: Uint8Array) => dec(b),
  }
}
export interface Empty {}
export const Empty: MessageType<Empty> = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })

// what a generator uses
export type DescService = any
export type DescMethod = any
export type DescMessage = any
export type DescFile = any
const reserved = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if implements import in instanceof interface let new null package private protected public return static super switch this throw true try typeof var void while with yield Object'.split(' '))
// localName is the identifier for a description.
export function localName(d: any): string {
  if (d.kind === 'rpc') {
    const n = d.name.charAt(0).toLowerCase() + d.name.slice(1)
    return ['constructor', 'toString', 'toJSON', 'valueOf'].includes(n) ? n + '$' : n
  }
  const pkg = d.file.proto.package
  const n = d.typeName.slice(pkg ? pkg.length + 1 : 0).replace(/\./g, '_')
  return reserved.has(n) ? n + '$' : n
}
