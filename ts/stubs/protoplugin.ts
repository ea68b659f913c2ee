// the part of @aptre/protobuf-es-lite/protoplugin/ecmascript that a generator uses: files that
// things are printed to, symbols to import, and the schema
export interface ImportSymbol {
  kind: 'es_symbol'
  name: string
  from: string
  typeOnly: boolean
  toTypeOnly(): ImportSymbol
}
export type Printable = any
export type Schema = any

export function createImportSymbol(name: string, from: string, typeOnly = false): ImportSymbol {
  return { kind: 'es_symbol', name, from, typeOnly, toTypeOnly: () => createImportSymbol(name, from, true) }
}

const lite = '@aptre/protobuf-es-lite'

export class GeneratedFile {
  private parts: any[] = []
  private pre = ''
  constructor(
    readonly path: string,
    private params: string,
  ) {}
  private add(x: any): void {
    if (Array.isArray(x)) {
      for (const e of x) this.add(e)
      return
    }
    switch (typeof x) {
      case 'string':
      case 'number':
      case 'boolean':
      case 'bigint':
        this.parts.push(String(x))
        return
      case 'object':
        if (x?.kind === 'es_symbol') {
          this.parts.push(x)
          return
        }
        if (x?.kind === 'message' || x?.kind === 'enum') {
          this.parts.push(this.import(x))
          return
        }
        if (x?.kind === 'es_text') {
          this.parts.push(x.text)
          return
        }
        if (x?.kind === 'es_export') {
          this.parts.push('export ', x.declaration, ' ', x.name)
          return
        }
    }
    throw new Error('cannot print ' + typeof x)
  }
  print(first?: any, ...rest: any[]): void {
    if (first !== undefined && first !== null && Object.prototype.hasOwnProperty.call(first, 'raw')) {
      for (let i = 0; i < first.length; i++) {
        this.add(first[i])
        if (i < rest.length) this.add(rest[i])
      }
    } else if (first !== undefined) this.add([first, ...rest])
    this.parts.push('\n')
  }
  preamble(file: any): void {
    this.pre = `// @generated by protoc-gen-es-starpc none with parameter "${this.params}"\n// @generated from file ${file.name}.proto (package ${file.proto.package}, syntax ${file.syntax})\n/* eslint-disable */\n\n`
  }
  string(s: string) {
    return { kind: 'es_text', text: JSON.stringify(s) }
  }
  array(elements: any[], elementType: string): any[] {
    const o: any[] = ['[']
    for (const e of elements) o.push(e, ', ')
    return [...o, '] as ', elementType, '[]']
  }
  jsDoc(arg: any, indent = '') {
    const text =
      typeof arg === 'string'
        ? arg
        : (arg.comments ?? '') + (arg.comments ? '\n\n' : '') + '@generated from ' + arg.toString()
    const lines = text.split('\n').map((l: string) => indent + ' *' + (l ? ' ' + l.replace(/\*\//g, '*\\/') : ''))
    return { kind: 'es_text', text: [indent + '/**', ...lines, indent + ' */'].join('\n') }
  }
  exportDecl(declaration: string, name: any) {
    return { kind: 'es_export', declaration, name: typeof name === 'string' ? name : name.name }
  }
  export(declaration: string, name: string) {
    return { kind: 'es_export', declaration, name }
  }
  import(a: any, from?: string): ImportSymbol {
    if (typeof a === 'string') return createImportSymbol(a, from!)
    const local = a.typeName.slice(a.file.proto.package ? a.file.proto.package.length + 1 : 0).replace(/\./g, '_')
    if (a.typeName.startsWith('google.protobuf.')) return createImportSymbol(local, lite)
    return createImportSymbol(local, './' + a.file.name + '.pb.js')
  }
  private rel(from: string): string {
    if (!from.startsWith('./')) return from
    const me = this.path.split('/').slice(0, -1)
    const to = from.slice(2).split('/')
    while (me.length && to.length > 1 && me[0] === to[0]) {
      me.shift()
      to.shift()
    }
    return (me.length ? '../'.repeat(me.length) : './') + to.join('/')
  }
  content(): string {
    const names = new Map<string, string>() // from|name -> identifier
    const used = new Set<string>()
    const imports = new Map<string, string[]>()
    const body = this.parts
      .map((p) => {
        if (typeof p === 'string') return p
        const from = this.rel(p.from)
        const key = from + '|' + p.name
        let id = names.get(key)
        if (!id) {
          id = p.name as string
          for (let n = 1; used.has(id); n++) id = p.name + '$' + n
          used.add(id)
          names.set(key, id)
          if (!imports.has(from)) imports.set(from, [])
          imports.get(from)!.push(id === p.name ? id : `${p.name} as ${id}`)
        }
        return id
      })
      .join('')
    let head = ''
    for (const [from, l] of imports) head += `import { ${l.join(', ')} } from ${JSON.stringify(from)};\n`
    return this.pre + head + (head ? '\n' : '') + body
  }
}

// schemaOf makes a schema of file descriptions, and out what is generated.
export function schemaOf(files: any[], params: string) {
  const out: GeneratedFile[] = []
  return {
    out,
    schema: {
      files,
      allFiles: files,
      targets: ['ts'],
      runtime: new Proxy({}, { get: (_, n) => createImportSymbol(String(n), lite) }),
      proto: {},
      generateFile(name: string) {
        const f = new GeneratedFile(name, params)
        out.push(f)
        return f
      },
    } as any,
  }
}
