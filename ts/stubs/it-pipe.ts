// it-pipe 3
import { pushable } from 'it-pushable'

const isAsyncIterable = (o: any) => o?.[Symbol.asyncIterator] != null
const isIterable = (o: any) => o?.[Symbol.iterator] != null
const isDuplex = (o: any) => o != null && o.sink != null && o.source != null

function merge(...sources: any[]): AsyncGenerator<any> {
  return (async function* () {
    const output = pushable<any>({ objectMode: true })
    void Promise.resolve().then(async () => {
      try {
        await Promise.all(
          sources.map(async (s) => {
            for await (const item of s) output.push(item)
          }),
        )
        output.end()
      } catch (err: any) {
        output.end(err)
      }
    })
    yield* output
  })()
}

const duplexPipelineFn = (duplex: any) => (source: any) => {
  const p = duplex.sink(source)
  if (p?.then != null) {
    const stream = pushable<any>({ objectMode: true })
    p.then(
      () => stream.end(),
      (err: any) => stream.end(err),
    )
    const src = duplex.source
    const wrap = async function* () {
      yield* src
      stream.end()
    }
    return merge(stream, wrap())
  }
  return duplex.source
}

export const rawPipe = (...fns: any[]): any => {
  let res: any
  for (const f of fns) res = f(res)
  return res
}

export function pipe(first: any, ...rest: any[]): any {
  if (first == null) throw new Error('Empty pipeline')
  if (isDuplex(first)) {
    const d = first
    first = () => d.source
  } else if (isIterable(first) || isAsyncIterable(first)) {
    const s = first
    first = () => s
  }
  const fns = [first, ...rest]
  if (fns.length > 1 && isDuplex(fns[fns.length - 1])) fns[fns.length - 1] = fns[fns.length - 1].sink
  for (let i = 1; i < fns.length - 1; i++) {
    if (isDuplex(fns[i])) fns[i] = duplexPipelineFn(fns[i])
  }
  return rawPipe(...fns)
}
