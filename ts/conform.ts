// Compares what the generator makes with the stand-in protoplugin of echo.proto and mock.proto with
// the files in the repository, which the real one made: token by token, but for the order of
// imports, quotes, semicolons and trailing commas.
// usage: see tools/conform.sh
import * as fs from 'node:fs'
import ts from 'typescript'
import { generateTs } from '@repo/cmd/protoc-gen-es-starpc/typescript'
import { schemaOf } from './stubs/protoplugin'

const R = process.env.REPO || '/repo'
const tokens = (src: string): string => {
  const sc = ts.createScanner(ts.ScriptTarget.Latest, true, ts.LanguageVariant.Standard, src)
  const out: string[] = []
  for (let k = sc.scan(); k !== ts.SyntaxKind.EndOfFileToken; k = sc.scan()) {
    const x = k === ts.SyntaxKind.StringLiteral ? JSON.stringify(sc.getTokenValue()) : sc.getTokenText()
    if (x === ';') continue
    if ((x === '}' || x === ')') && out[out.length - 1] === ',') out.pop()
    out.push(x)
  }
  // imports: sort the names, then the statements
  const text = out.join(' ')
  const imports: string[] = []
  const rest = text.replace(/import \{ ([^}]*) \} from ("[^"]*") ?/g, (_, names, from) => {
    imports.push(from + ' ' + names.split(/ , /).sort().join(','))
    return ''
  })
  return imports.sort().join('\n') + '\n' + rest.replace(/ ([{};]) /g, '\n$1 ')
}

const file = (name: string, pkg: string): any => ({ kind: 'file', name, syntax: 'proto3', proto: { package: pkg }, services: [] })
const G = 'github.com/aperturerobotics/starpc/'
function describe(name: string, pkg: string, svc: string, methods: [string, number, any][]): any {
  const f = file(name, pkg)
  const s: any = { kind: 'service', name: svc, typeName: pkg + '.' + svc, file: f, methods: [], toString: () => 'service ' + svc }
  for (const [n, k, t] of methods)
    s.methods.push({ kind: 'rpc', name: n, methodKind: k, input: t(f), output: t(f), idempotency: undefined, parent: s, toString: () => 'rpc ' + n })
  f.services.push(s)
  return f
}
const msg = (typeName: string, own?: any) => (f: any) => ({ kind: 'message', typeName, file: own ?? f })
const e = msg('echo.EchoMsg')
const defs: [string, any][] = [
  ['echo/echo', describe('echo', 'echo', 'Echoer', [['Echo', 0, e], ['EchoServerStream', 1, e], ['EchoClientStream', 2, e], ['EchoBidiStream', 3, e], ['RpcStream', 3, msg('rpcstream.RpcStreamPacket', file('../rpcstream/rpcstream', 'rpcstream'))], ['DoNothing', 0, msg('google.protobuf.Empty', file('google/protobuf/empty', 'google.protobuf'))]])],
  ['mock/mock', describe('mock', 'e2e.mock', 'Mock', [['MockRequest', 0, msg('e2e.mock.MockMsg')]])],
]
let bad = 0
for (const [p, d] of defs) {
  const x = schemaOf([d], 'target=ts,ts_nocheck=false')
  generateTs(x.schema)
  const got = tokens(x.out[0].content()).replaceAll('./../', '../')
  const want = tokens(fs.readFileSync(`${R}/${p}_srpc.pb.ts`, 'utf8'))
  if (got !== want) {
    bad++
    const g = got.split('\n'), w = want.split('\n')
    const i = g.findIndex((l, j) => l !== w[j])
    console.log(`${p}: differs at line ${i}:\n  generated ${g[i]}\n  checked in ${w[i]}`)
  } else console.log(`${p}_srpc.pb.ts: the same ${got.split(/\s+/).length} tokens`)
}
void G
process.exit(bad ? 1 : 0)
