// Runs the repository's TypeScript generator on enumerated service definitions and writes what
// it produced, with an index and a file that says what the types have to be.
import * as fs from 'node:fs'
import * as path from 'node:path'
import { generateTs } from '@repo/cmd/protoc-gen-es-starpc/typescript'
import { schemaOf } from './stubs/protoplugin'

interface M {
  name: string
  kind: number // es-lite's MethodKind
  in: string
  out: string
  idem?: number
  doc?: string
}
interface S {
  name: string
  methods: M[]
  doc?: string
}
interface F {
  name: string
  pkg: string
  services: S[]
}

const A = 'verif.msgs.MsgA'
const B = 'verif.msgs.MsgB'
const L = 'verif.local.Local'
const I = 'verif.local.Outer.Inner'
const E = 'google.protobuf.Empty'
const home: Record<string, string> = { [A]: 'msgs', [B]: 'msgs', [L]: 'local', [I]: 'local', [E]: 'google/protobuf/empty' }
const pkgs: Record<string, string> = { msgs: 'verif.msgs', local: 'verif.local', 'google/protobuf/empty': 'google.protobuf' }
const kinds = ['Unary', 'Server', 'Client', 'Bidi']

function files(): F[] {
  const m = (name: string, kind: number, i = A, o = A, idem?: number, doc?: string): M => ({ name, kind, in: i, out: o, idem, doc })
  const pair = (i: number) => [i & 1 ? B : A, (i >> 1) & 1 ? B : A]
  const fs: F[] = []
  const pairs: F = { name: 'pairs', pkg: 'verif.pairs.v1', services: [] }
  for (let a = 0; a < 4; a++)
    for (let b = 0; b < 4; b++) {
      const [i1, o1] = pair(a + b)
      const [i2, o2] = pair(a + 2 * b + 1)
      pairs.services.push({ name: kinds[a] + kinds[b], methods: [m('First', a, i1, o1), m('Second', b, i2, o2)] })
    }
  const triples: F = { name: 'dir/triples', pkg: 'verif.triples', services: [] }
  for (let x = 0; x < 64; x++) {
    const ks = [x & 3, (x >> 2) & 3, x >> 4]
    triples.services.push({
      name: 'T' + ks.join(''),
      methods: ['Aa', 'Bb', 'Cc'].map((n, j) => {
        const [i, o] = pair(ks[j] + j)
        return m(n, ks[j], i, o, [undefined, 1, 2][(x + j) % 3])
      }),
    })
  }
  const types: S = { name: 'Types', doc: ' Types has every kind with every pair of types.\n It has two lines.', methods: [] }
  for (let k = 0; k < 4; k++)
    for (let j = 0; j < 4; j++)
      for (const d of [undefined, 1, 2]) {
        const [i, o] = pair(j)
        const n = kinds[k] + j + (d ?? '')
        types.methods.push(m(n, k, i, o, d, ' ' + n + ' is a method.\n\n With a blank line, a "quote", and */ too.'))
      }
  fs.push(pairs, triples, { name: 'types', pkg: 'types', services: [types] })
  fs.push({
    name: 'names', pkg: 'verif.names', services: [
      { name: 'A', methods: [m('B_C', 3), m('lower', 0, A, B), m('get_thing', 1, B, A), m('put_1', 2)] },
      { name: 'A_B', methods: [m('C', 3, B, B), m('Get', 0), m('Get2', 0), m('GetThing', 1)] },
      { name: 'under_score', methods: [m('Do', 0), m('DO', 1), m('do_it', 2, B, B)] },
      { name: 'lower', methods: [m('request', 0), m('close', 3), m('delete', 2), m('toString', 1)] },
      { name: 'Empty', methods: [] },
    ],
  })
  fs.push({ name: 'local', pkg: 'verif.local', services: kinds.map((n, k) => ({ name: 'Svc' + n, methods: [m('One', k, L, I), m('Two', k, I, A), m('Three', 3 - k, B, L), m('Four', k, E, L), m('Five', 3 - k, I, E)] })) })
  fs.push({ name: 'nopkg', pkg: '', services: [{ name: 'NoPkg', methods: [m('Echo', 0), m('Chat', 3, A, B)] }] })
  fs.push({ name: 'two/one', pkg: 'verif.two', services: [{ name: 'One', methods: [m('Echo', 0), m('Chat', 3)] }, { name: 'More', methods: [m('Echo', 1, B, A), m('Chat', 2, A, B)] }] })
  fs.push({ name: 'two/two', pkg: 'verif.two', services: [{ name: 'Two', methods: [m('Echo', 3), m('Chat', 0, B, A)] }] })
  fs.push({ name: 'two/none', pkg: 'verif.two', services: [] })
  return fs
}

function describe(fs: F[]): any[] {
  const file = (name: string, pkg: string): any => ({
    kind: 'file', name, syntax: 'proto3', proto: { package: pkg, name: name + '.proto', syntax: 'proto3' },
    messages: [], enums: [], services: [], extensions: [], dependencies: [], deprecated: false, toString: () => 'file ' + name + '.proto',
  })
  const dep = new Map<string, any>()
  const msg = new Map<string, any>()
  const all = fs.map((f) => file(f.name, f.pkg))
  for (const f of all) dep.set(f.name, f)
  for (const [t, h] of Object.entries(home)) {
    if (!dep.has(h)) dep.set(h, file(h, pkgs[h]))
    const d: any = { kind: 'message', typeName: t, name: t.split('.').pop(), file: dep.get(h), fields: [], oneofs: [], members: [], deprecated: false, toString: () => 'message ' + t }
    dep.get(h).messages.push(d)
    msg.set(t, d)
  }
  const comments = (c?: string) => () => ({ leadingDetached: [], leading: c, trailing: undefined, sourcePath: [] })
  fs.forEach((f, i) => {
    all[i].dependencies = [...dep.values()].filter((d) => d !== all[i])
    for (const s of f.services) {
      const tn = (f.pkg ? f.pkg + '.' : '') + s.name
      const sd: any = { kind: 'service', name: s.name, typeName: tn, file: all[i], deprecated: false, proto: { name: s.name }, comments: s.doc, getComments: comments(s.doc), toString: () => 'service ' + tn, methods: [] }
      for (const m of s.methods)
        sd.methods.push({
          kind: 'rpc', name: m.name, methodKind: m.kind, input: msg.get(m.in), output: msg.get(m.out), idempotency: m.idem, parent: sd, deprecated: false,
          proto: { name: m.name, inputType: '.' + m.in, outputType: '.' + m.out, clientStreaming: m.kind >= 2, serverStreaming: m.kind === 1 || m.kind === 3 },
          comments: m.doc, getComments: comments(m.doc), toString: () => 'rpc ' + tn + '.' + m.name,
        })
      all[i].services.push(sd)
    }
  })
  return all
}

const local = (t: string) => ({ [A]: 'MsgA', [B]: 'MsgB', [L]: 'Local', [I]: 'Outer_Inner', [E]: 'Empty' })[t]!
const field: Record<string, [string, number]> = { [A]: ['aa', 1], [B]: ['bb', 2], [L]: ['cc', 3], [I]: ['dd', 4] }

function messages(ts: string[]): string {
  let o = "import { MessageType, createMessageType, ScalarType } from '@aptre/protobuf-es-lite'\n"
  for (const t of ts) {
    const [f, no] = field[t]
    o += `export interface ${local(t)} { ${f}?: string }\n`
    o += `export const ${local(t)}: MessageType<${local(t)}> = createMessageType({ typeName: '${t}', fields: [{ no: ${no}, name: '${f}', kind: 'scalar', T: ScalarType.STRING }] })\n`
  }
  return o
}

function broken(s: string): never {
  console.log('GENERATOR: ' + s)
  process.exit(3)
}

const out = process.argv[2]
const list = files()
const gen = (): [string, string][] => {
  const x = schemaOf(describe(list), 'target=ts,ts_nocheck=false')
  generateTs(x.schema)
  return x.out.map((f) => [f.path, f.content()])
}
let res: [string, string][] = []
try {
  res = gen()
  if (JSON.stringify(gen()) !== JSON.stringify(res)) broken('two runs on the same request differ')
} catch (e: any) {
  broken('the TypeScript generator threw ' + (e?.stack ?? e))
}
const seen = new Set<string>()
const put = (rel: string, s: string) => {
  const p = path.join(out, rel)
  fs.mkdirSync(path.dirname(p), { recursive: true })
  fs.writeFileSync(p, s)
}
const want = new Set(list.filter((f) => f.services.length).map((f) => f.name + '_srpc.pb.ts'))
for (const [p, s] of res) {
  if (seen.has(p)) broken('two files are called ' + p)
  seen.add(p)
  if (!list.some((f) => f.name + '_srpc.pb.ts' === p)) broken('unexpected output file ' + p)
  want.delete(p)
  put(p, s)
}
if (want.size) broken('no output for ' + [...want])
put('msgs.pb.ts', messages([A, B]))
put('local.pb.ts', messages([L, I]))

// the index, and what has to hold of the types
let imp = ''
let idx = 'export const services: any[] = [\n'
let typ =
  "import type { MsgA, MsgB } from './msgs.pb.js'\nimport type { Local, Outer_Inner } from './local.pb.js'\ntype Empty = {}\ntype S<T> = AsyncIterable<T>\ntype Has<T extends U, U> = T\n"
let n = 0
for (const [fi, f] of list.entries()) {
  if (!f.services.length) continue
  imp += `import * as f${fi} from './${f.name}_srpc.pb.js'\n`
  typ += `import type * as f${fi} from './${f.name}_srpc.pb.js'\n`
  for (const s of f.services) {
    idx += `  { file: ${JSON.stringify(f.name)}, name: ${JSON.stringify((f.pkg ? f.pkg + '.' : '') + s.name)}, def: f${fi}.${s.name}Definition, id: f${fi}.${s.name}ServiceName, ${s.methods.length ? `Client: f${fi}.${s.name}Client, ` : ''}methods: ${JSON.stringify(s.methods)} },\n`
    if (!s.methods.length) continue
    n++
    const sig = s.methods.map((m) => {
      const i = local(m.in)
      const o = local(m.out)
      return `${m.name}: (request: ${m.kind >= 2 ? `S<${i}>` : i}, abortSignal?: AbortSignal) => ${m.kind === 1 || m.kind === 3 ? `S<${o}>` : `Promise<${o}>`}`
    })
    typ += `interface W${n} { ${sig.join('; ')} }\n`
    typ += `export type V${n} = [Has<W${n}, f${fi}.${s.name}>, Has<f${fi}.${s.name}, W${n}>, Has<f${fi}.${s.name}Client, W${n}>]\n`
  }
}
put('index.ts', imp + idx + ']\n')
put('types.ts', typ)
