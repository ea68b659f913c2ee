// it-pushable 3.2: a FIFO with end(err); ending with an error drops what is queued.
type Next = { done?: boolean; value?: any; error?: any }
export interface Pushable<T> extends AsyncGenerator<T> {
  push(v: T): this
  end(err?: Error): this
  onEmpty(options?: any): Promise<void>
  readonly readableLength: number
}
export function pushable<T>(options: any = {}): Pushable<T> {
  let buffer: Next[] = []
  let onNext: ((n: Next) => void) | null = null
  let ended = false
  let empty: (() => void)[] = []
  const getNext = (): any => {
    const n = buffer.shift()
    if (buffer.length === 0) for (const f of empty.splice(0)) f()
    if (n == null) return { done: true }
    if (n.error != null) throw n.error
    return { done: n.done === true, value: n.value }
  }
  const put = (n: Next) => {
    if (onNext != null) onNext(n)
    else buffer.push(n)
  }
  const p: any = {
    [Symbol.asyncIterator]() {
      return this
    },
    async next() {
      if (buffer.length !== 0) return getNext()
      if (ended) return { done: true }
      return await new Promise((resolve, reject) => {
        onNext = (n) => {
          onNext = null
          buffer.push(n)
          try {
            resolve(getNext())
          } catch (err) {
            reject(err)
          }
        }
      })
    },
    return() {
      buffer = []
      p.end()
      return { done: true }
    },
    throw(err: any) {
      p.end(err)
      return { done: true }
    },
    push(value: any) {
      if (ended) return p
      if (options?.objectMode !== true && value?.byteLength == null) {
        throw new Error('objectMode was not true but tried to push non-Uint8Array value')
      }
      put({ done: false, value })
      return p
    },
    end(err?: any) {
      if (ended) return p
      ended = true
      if (err != null) {
        buffer = []
        put({ error: err })
      } else {
        put({ done: true })
      }
      return p
    },
    async onEmpty(o?: any) {
      o?.signal?.throwIfAborted()
      if (buffer.length === 0) return
      await new Promise<void>((resolve) => empty.push(resolve))
    },
    get readableLength() {
      return buffer.length
    },
  }
  return p
}
