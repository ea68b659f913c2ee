// event-iterator 2 (without high water mark events)
export class EventIterator<T> {
  private it: AsyncIterator<T>
  constructor(listen: (q: any) => void | (() => void), _options: any = {}) {
    this.it = this.make(listen)
  }
  [Symbol.asyncIterator](): AsyncIterator<T> {
    return this.it
  }
  private make(listen: (q: any) => void | (() => void)): AsyncIterator<T> {
    const pulls: { resolve: (v: any) => void; reject: (e: any) => void }[] = []
    const pushes: any[] = []
    let stopped = false
    let remove: any
    const finish = () => {
      remove?.()
      remove = undefined
    }
    const q = {
      on: () => {},
      push: (value: any) => {
        if (stopped) return
        const r = { value, done: false }
        const p = pulls.shift()
        if (p) p.resolve(r)
        else pushes.push(Promise.resolve(r))
      },
      stop: () => {
        if (stopped) return
        stopped = true
        finish()
        for (const p of pulls) p.resolve({ value: undefined, done: true })
        pulls.length = 0
      },
      fail: (err: any) => {
        if (stopped) return
        stopped = true
        finish()
        if (pulls.length) {
          for (const p of pulls) p.reject(err)
          pulls.length = 0
        } else {
          const r = Promise.reject(err)
          r.catch(() => {})
          pushes.push(r)
        }
      },
    }
    remove = listen(q)
    if (stopped) finish()
    return {
      next: () => {
        const r = pushes.shift()
        if (r) return r
        if (stopped) return Promise.resolve({ value: undefined, done: true })
        return new Promise((resolve, reject) => pulls.push({ resolve, reject }))
      },
      return: () => {
        stopped = true
        finish()
        return Promise.resolve({ value: undefined, done: true })
      },
    } as any
  }
}
