// P25: TypeScript framing does not depend on how bytes arrive
import { Scenario, T } from './engine'
import {
  decodeUint32Le, encodeUint32Le, lengthPrefixDecode, lengthPrefixEncode, parseLengthPrefixTransform, prependLengthPrefixTransform,
  prependPacketLen, uint32LEDecode, uint32LEEncode,
} from '@repo/srpc/packet'
import { combineUint8ArrayListTransform } from '@repo/srpc/array-list'
import { streamToPacketStream } from '@repo/srpc/stream'
import { buildDecodeMessageTransform, buildEncodeMessageTransform } from '@repo/srpc/message'
import { Uint8ArrayList } from 'uint8arraylist'
import { bytes, hex, Num, Pair } from './lib'

const flat = (x: any): Uint8Array => (x instanceof Uint8Array ? x : x.subarray())
const frame = (b: Uint8Array) => bytes(b.length & 255, (b.length >> 8) & 255, (b.length >> 16) & 255, b.length >>> 24, ...b)
const cat = (l: Uint8Array[]) => bytes(...l.flatMap((b) => [...b]))

function messages(t: T, max: number): Uint8Array[] {
  const l: Uint8Array[] = []
  for (let i = 0; i < max; i++) {
    const k = t.choose(5)
    if (k === 0) break
    l.push([bytes(), bytes(7), bytes(1, 0, 0), bytes(2, 0, 0, 0, 9)][k - 1])
  }
  return l
}

// chunks cuts the bytes at every possible set of places.
function chunks(t: T, b: Uint8Array): any[] {
  const list = t.bool()
  const l: any[] = []
  let cur: number[] = []
  for (let i = 0; i < b.length; i++) {
    cur.push(b[i])
    if (i === b.length - 1 || t.bool()) {
      l.push(list ? new Uint8ArrayList(bytes(...cur)) : bytes(...cur))
      cur = []
    }
  }
  return l
}

const splits: Scenario = {
  prop: 'P25', name: 'splits', quick: 0, thorough: 0, weight: 3,
  doc: 'every sequence of messages, whole or truncated, cut into chunks in every way, decodes to the messages',
  main: async (t) => {
    const th = t.tier === 'thorough'
    const msgs = messages(t, th ? 3 : 2)
    let all = cat(msgs.map(frame))
    if (all.length > (th ? 15 : 13)) return
    const cut = t.choose(Math.min(all.length, 6) + 1)
    let want = msgs.map(hex)
    if (cut) {
      all = all.slice(0, all.length - cut)
      want = []
      let n = 0
      for (const m of msgs) if ((n += 4 + m.length) <= all.length) want.push(hex(m))
    }
    const src = chunks(t, all)
    const got: string[] = []
    async function* source() {
      yield* src
    }
    for await (const m of parseLengthPrefixTransform()(source())) got.push(hex(flat(m)))
    if (got.join() !== want.join()) t.failf(`chunks [${src.map(flat).map(hex)}] decoded to [${got}], expected [${want}]`)
  },
}

const roundtrip: Scenario = {
  prop: 'P25', name: 'encode', quick: 0, thorough: 0,
  doc: 'every sequence of messages, as arrays or lists, is encoded with its length in front',
  main: async (t) => {
    const msgs = messages(t, 3)
    const list = t.bool()
    async function* source() {
      for (const m of msgs) yield list ? new Uint8ArrayList(m) : m
    }
    const got: Uint8Array[] = []
    const src: any = t.bool() ? prependLengthPrefixTransform()(source()) : lengthPrefixEncode(source(), uint32LEEncode)
    for await (const m of combineUint8ArrayListTransform()(src)) got.push(m)
    if (got.map(hex).join() !== msgs.map(frame).map(hex).join()) t.failf(`[${msgs.map(hex)}] became [${got.map(hex)}]`)
    const back: string[] = []
    async function* again() {
      yield cat(got)
    }
    for await (const m of lengthPrefixDecode(again(), uint32LEDecode)) back.push(hex(flat(m)))
    if (back.join() !== msgs.map(hex).join()) t.failf(`[${msgs.map(hex)}] came back as [${back}]`)
    t.outcome(hex(cat(got)))
  },
}

const numbers: Scenario = {
  prop: 'P25', name: 'numbers', quick: 0, thorough: 0,
  doc: 'lengths are little-endian uint32 for every combination of interesting bytes; large messages',
  main: async (t) => {
    const v = [0, 1, 127, 128, 254, 255]
    const b = bytes(t.of(...v), t.of(...v), t.of(...v), t.of(...v))
    const n = new DataView(b.buffer).getUint32(0, true)
    if (hex(encodeUint32Le(n)) !== hex(b)) t.failf(`encodeUint32Le(${n}) = ${hex(encodeUint32Le(n))}`)
    if (decodeUint32Le(b) !== n) t.failf(`decodeUint32Le(${hex(b)}) = ${decodeUint32Le(b)}`)
    if (hex(flat(uint32LEEncode(n))) !== hex(b)) t.failf(`uint32LEEncode(${n}) = ${hex(flat(uint32LEEncode(n)))}`)
    if (uint32LEDecode(new Uint8ArrayList(b)) !== n) t.failf(`uint32LEDecode(${hex(b)})`)
    if (n < 70000) {
      const m = new Uint8Array(n).fill(3)
      const p = prependPacketLen(m)
      if (hex(p.subarray(0, 4)) !== hex(b) || p.length !== n + 4 || hex(p.subarray(4)) !== hex(m)) t.failf(`prependPacketLen of ${n} bytes`)
      const got: Uint8Array[] = []
      async function* source() {
        yield p.subarray(0, 5)
        yield p.subarray(5)
        yield p
      }
      for await (const x of lengthPrefixDecode(source(), uint32LEDecode)) got.push(flat(x))
      if (got.length !== 2 || hex(got[0]) !== hex(m) || hex(got[1]) !== hex(m)) t.failf(`a message of ${n} bytes came back as ${got.map((g) => g.length)}`)
    }
    for (const k of [0, 1, 2, 3]) {
      let x = 0
      try {
        uint32LEDecode(new Uint8ArrayList(b.slice(0, k)))
      } catch {
        x = 1
      }
      if (!x) t.failf('a length was decoded from too few bytes')
    }
  },
}

// stream: framed packets over a byte stream whose deliveries are cut anywhere.
const stream: Scenario = {
  prop: 'P25', name: 'stream', quick: 4, thorough: 6, weight: 2,
  doc: 'packets both ways over a byte stream, which may end or fail at any point: a prefix arrives, each packet whole, and the stream is closed',
  main: async (t) => {
    const p = new Pair<any>(t, 'p', t.bool())
    const cutAt = t.of(0, 1, 3, 5)
    for (const e of [p.a, p.b]) {
      const src = e.source
      e.source = (async function* () {
        for await (const x of src) {
          const b = flat(x)
          if (cutAt && b.length > cutAt) {
            yield b.subarray(0, cutAt)
            yield b.subarray(cutAt)
          } else yield t.tier ? b : x
        }
      })()
    }
    const how = t.of('', 'end', 'fail', 'writer fails', 'stream fails')
    let closes = 0
    const close0 = p.a.close
    p.a.close = (e?: Error) => {
      closes++
      return close0(e)
    }
    if (how === 'stream fails') {
      const n = t.choose(3)
      const sink0 = p.a.sink
      // the stream does not accept what is written: its owner has to close it
      p.a.sink = async (src: any) => {
        let k = 0
        for await (const x of src) {
          if (k++ === n) throw new Error('write failed')
          await sink0([x])
        }
      }
    }
    const a = streamToPacketStream(p.a as any)
    const b = streamToPacketStream(p.b as any)
    const out = [[bytes(1), bytes(), bytes(2, 3)], [bytes(4, 5, 6), bytes()]]
    const got: string[][] = [[], []]
    const ends: (string | null)[] = [null, null]
    if (how === 'end' || how === 'fail') t.event('', 'lose', () => p.fail(how === 'fail' ? new Error('network') : undefined))
    ;[a, b].forEach((s, i) => {
      t.go('write' + i, async () => {
        try {
          await s.sink(
            (async function* () {
              yield* out[i]
              if (how === 'writer fails' && i === 0) throw new Error('writer')
            })(),
          )
        } catch {}
      })
      t.go('read' + i, async () => {
        try {
          for await (const m of s.source) got[i].push(hex(m))
          ends[i] = ''
        } catch (e: any) {
          ends[i] = e.message
        }
      })
    })
    await t.idle()
    for (const i of [0, 1]) {
      const want = out[1 - i].map(hex)
      if (!got[i].every((x, k) => x === want[k])) t.failf(`side ${i} received [${got[i]}] of [${want}]`)
      // a side that has closed its own half of such a stream reads no further
      if (!how && !p.both && got[i].length !== want.length) t.failf(`side ${i} received only [${got[i]}] of [${want}]`)
      if (how === 'fail' && !p.both && ends[i] === '' && got[i].length !== want.length) t.failf(`side ${i} saw the end of a stream that failed`)
    }
    if (!closes) t.failf('the stream was never closed')
    if (!p.down && !(p.a.wrote && p.b.wrote)) t.failf('the stream was not closed')
    t.outcome(got.join(' ') + ' ' + ends)
  },
}

const transforms: Scenario = {
  prop: 'P25', name: 'transforms', quick: 0, thorough: 0,
  doc: 'messages are encoded and decoded one for one and in order, alone or in arrays; an error ends the rest',
  main: async (t) => {
    const l: any[] = []
    const want: number[] = []
    let bad = false
    for (let i = 0; i < 3; i++) {
      const k = t.choose(7)
      if (k === 0) break
      const batch = [[], [[1]], [0], [2, 3], [255], [5, 255, 6]][k - 1] as any[]
      const single = k === 2
      const vals: number[] = single ? batch[0] : batch
      for (const v of vals) {
        if (v === 255) bad = true
        if (!bad) want.push(v)
      }
      const bs = vals.map((v) => (v ? bytes(v) : bytes()))
      l.push(single ? bs[0] : bs)
    }
    const got: number[] = []
    let err = ''
    async function* source() {
      yield* l
    }
    try {
      for await (const m of buildDecodeMessageTransform<any>(Num)(source())) got.push(m.n)
    } catch (e: any) {
      err = e.message
    }
    if (got.join() !== want.join() || !!err !== bad) t.failf(`decoded [${got}] ${err}, expected [${want}] ${bad}`)
    if (bad) return
    const out: string[] = []
    async function* objs() {
      for (const x of l) yield Array.isArray(x) ? x.map((b) => Num.fromBinary(b)) : Num.fromBinary(x)
    }
    for await (const m of buildEncodeMessageTransform<any>(Num)(objs())) out.push(hex(m))
    if (out.join() !== want.map((v) => hex(Num.toBinary({ n: v }))).join()) t.failf(`encoded [${out}] of [${want}]`)
    t.outcome(out.join())
  },
}

export const p25: Scenario[] = [splits, roundtrip, numbers, stream, transforms]
