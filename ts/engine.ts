// Explorer for the TypeScript half: between two events the program is deterministic (one
// thread, FIFO microtasks), so its behaviours are the orders of events (deliveries, timers,
// user operations) and the inputs. All of them within a deviation bound are executed.
import * as fs from 'node:fs'

const realImmediate = globalThis.setImmediate
const realNow = Date.now.bind(Date)

export class Stop extends Error {}

interface Ev {
  id: number
  key: string
  label: string
  fn: () => void
  at?: number
}

interface Pt {
  n: number
  take: number
  cost: boolean
}

export interface Scenario {
  prop: string
  name: string
  doc: string
  quick: number
  thorough: number
  weight?: number
  main: (t: T) => void | Promise<void>
}

let cur: T | null = null

export class T {
  pts: Pt[] = []
  evs: Ev[] = []
  timers = new Map<number, Ev>()
  now = 1000
  skew = 0 // how many milliseconds too early the program's timers fire
  nextId = 1
  steps = 0
  fail = ''
  out: string[] = []
  tasks = new Map<number, string>()
  idlers: (() => void)[] = []
  hash = 5381
  states: Set<number> | null = null
  cases = 0
  log: string[] | null = null
  constructor(
    readonly tier: string,
    private prefix: number[],
  ) {}
  private pick(n: number, cost: boolean): number {
    const i = this.pts.length
    let take = i < this.prefix.length ? this.prefix[i] : 0
    if (take >= n) take = 0
    this.pts.push({ n, take, cost })
    return take
  }
  // choose enumerates an input.
  choose(n: number): number {
    if (n <= 1) return 0
    const k = this.pick(n, false)
    this.hash = (this.hash * 33 + k + 7) | 0
    return k
  }
  bool() {
    return this.choose(2) === 1
  }
  of<X>(...l: X[]): X {
    return l[this.choose(l.length)]
  }
  // failf reports a violation (the first one counts).
  failf(what: string) {
    if (!this.fail) this.fail = what
  }
  outcome(s: string) {
    this.out.push(s)
  }
  // event makes fn happen some time; events with the same key happen in order.
  event(key: string, label: string, fn: () => void) {
    const id = this.nextId++
    this.evs.push({ id, key: key || '#' + id, label, fn })
  }
  timer(ms: number, fn: () => void): number {
    const id = this.nextId++
    this.timers.set(id, { id, key: '#' + id, label: 'timer', fn, at: this.now + Math.max(1, Math.floor(ms) || 1) })
    return id
  }
  // go runs fn and knows when it has ended; an error it throws is a violation.
  go(name: string, fn: () => unknown): void {
    const id = this.nextId++
    this.tasks.set(id, name)
    void (async () => {
      try {
        await fn()
      } catch (e: any) {
        if (!(e instanceof Stop)) this.failf(name + ' threw ' + (e?.stack ?? e))
      }
      this.tasks.delete(id)
    })()
  }
  pending(): string[] {
    return [...this.tasks.values()]
  }
  // after makes fn happen before event n (or when nothing else is left to happen).
  after(n: number, fn: () => void) {
    this.late = { n, fn }
  }
  late: { n: number; fn: () => void } | null = null
  // idle resolves when nothing is left to happen.
  idle(): Promise<void> {
    return new Promise((r) => this.idlers.push(() => r()))
  }
  async run(main: (t: T) => void | Promise<void>) {
    cur = this
    const drain = () => new Promise<void>((r) => realImmediate(r))
    this.go('main', () => main(this))
    for (;;) {
      await drain()
      if (this.fail) break
      if (this.late && (this.late.n <= this.steps || (this.evs.length === 0 && this.timers.size === 0))) {
        const f = this.late.fn
        this.late = null
        this.log?.push('now')
        try {
          f()
        } catch (x: any) {
          this.failf('threw ' + (x?.stack ?? x))
        }
        continue
      }
      const seen = new Set<string>()
      const heads: Ev[] = []
      for (const e of this.evs) {
        if (!seen.has(e.key)) {
          seen.add(e.key)
          heads.push(e)
        }
      }
      let tm: Ev | undefined
      for (const e of this.timers.values()) {
        if (!tm || e.at! < tm.at! || (e.at === tm.at && e.id < tm.id)) tm = e
      }
      if (tm) heads.push(tm)
      if (heads.length === 0) {
        const r = this.idlers.shift()
        if (!r) break
        r()
        continue
      }
      if (++this.steps > 200000) {
        this.failf('no end: ' + heads.map((h) => h.label).join(' '))
        break
      }
      const k = heads.length === 1 ? 0 : this.pick(heads.length, true)
      const e = heads[k]
      for (let i = 0; i < e.label.length; i++) this.hash = (this.hash * 33 + e.label.charCodeAt(i)) | 0
      this.hash = (this.hash * 33 + k) | 0
      if (this.states && this.states.size < 6e6) this.states.add(this.hash)
      this.log?.push(e.label)
      if (e.at !== undefined) {
        this.now = Math.max(this.now, e.at)
        this.timers.delete(e.id)
      } else {
        this.evs.splice(this.evs.indexOf(e), 1)
      }
      try {
        e.fn()
      } catch (x: any) {
        this.failf(e.label + ' threw ' + (x?.stack ?? x))
      }
    }
    if (!this.fail && this.tasks.size) this.failf('blocked forever: ' + this.pending().sort().join(', '))
    cur = null
  }
}

// the program's clock and timers are virtual
;(globalThis as any).setTimeout = (fn: any, ms: number, ...a: any[]) => {
  const t = cur
  if (!t) return 0
  return t.timer(t.skew && ms > 1 ? Math.max(1, ms - t.skew) : ms, () => fn(...a))
}
;(globalThis as any).clearTimeout = (id: any) => {
  cur?.timers.delete(id)
}
// an interval is a timer that is set again under its own id each time it fires
;(globalThis as any).setInterval = (fn: any, ms: number, ...a: any[]) => {
  const t = cur
  if (!t) return 0
  const id: number = t.timer(ms, () => {
    t.timers.set(id, { id, key: '#' + id, label: 'timer', fn: tick, at: t.now + Math.max(1, Math.floor(ms) || 1) })
    fn(...a)
  })
  const tick = t.timers.get(id)!.fn
  return id
}
;(globalThis as any).clearInterval = (globalThis as any).clearTimeout
const RealDate = Date
;(globalThis as any).Date = class extends RealDate {
  constructor(...a: any[]) {
    if (a.length) super(...(a as [any]))
    else super(cur?.now ?? 0)
  }
}
Date.now = () => cur?.now ?? 0
performance.now = () => cur?.now ?? 0
process.on('unhandledRejection', (e: any) => {
  cur?.failf('unhandled rejection: ' + (e?.stack ?? e))
})

function exec(s: Scenario, tier: string, prefix: number[], states: Set<number> | null, log: boolean): Promise<T> {
  const t = new T(tier, prefix)
  t.states = states
  if (log) t.log = []
  return t.run(s.main).then(() => t)
}

class Status {
  fd = -1
  b = Buffer.alloc(32 + 4096)
  constructor(path: string) {
    if (path) this.fd = fs.openSync(path, 'w')
  }
  put(begin: number, end: number, p: number[]) {
    if (this.fd < 0) return
    this.b.writeBigUInt64LE(BigInt(begin), 0)
    this.b.writeBigUInt64LE(BigInt(end), 8)
    this.b.writeBigUInt64LE(0n, 16)
    const n = Math.min(p.length, 4096)
    this.b.writeBigUInt64LE(BigInt(n), 24)
    for (let i = 0; i < n; i++) this.b[32 + i] = p[i]
    fs.writeSync(this.fd, this.b, 0, 32 + n, 0)
  }
}

async function explore(s: Scenario, tier: string, budget: number, bound: number, st: Status) {
  const t0 = realNow()
  const want = bound >= 0 ? bound : tier === 'thorough' ? s.thorough : s.quick
  const rep: any = {
    scenario: s.prop + '/' + s.name, doc: s.doc, executions: 0, states: 0, transitions: 0, events: 0, max_decisions: 0,
    levels: [], bound: want, completed: -1, fully_explored: false, shared_sites: 0, passes: 1, outcomes: {},
    distinct_outcomes: 0, samples: [], input_cases: 0, diverged: 0,
  }
  const states = new Set<number>()
  let n = 0
  for (let d = 0; d <= want; d++) {
    let more = false
    let done = true
    let execs = 0
    // the executions with exactly d deviations
    let prefix: number[] | null = []
    while (prefix) {
      if (realNow() - t0 > budget * 1000) {
        done = false
        break
      }
      n++
      st.put(n, n - 1, prefix)
      const t: T = await exec(s, tier, prefix, states, false)
      st.put(n, n, prefix)
      const taken = t.pts.map((p) => p.take)
      const used = t.pts.filter((p) => p.cost && p.take > 0).length
      if (used === d) {
        execs++
        rep.executions++
        rep.transitions += t.steps
        rep.events += t.steps
        rep.input_cases += t.cases
        rep.max_decisions = Math.max(rep.max_decisions, t.pts.length)
        const o = t.out.join(' ')
        if (rep.outcomes[o] !== undefined || Object.keys(rep.outcomes).length < 200) rep.outcomes[o] = (rep.outcomes[o] ?? 0) + 1
        if (rep.samples.length < 3) rep.samples.push(`choices=[${taken}] events=${t.steps} outcome=${JSON.stringify(o)}`)
      }
      if (t.fail) {
        rep.violation = t.fail
        rep.prefix = taken
        rep.states = states.size
        rep.wall_s = (realNow() - t0) / 1000
        return rep
      }
      // next prefix in lexicographic order with at most d deviations
      prefix = null
      let cost = used
      for (let i = t.pts.length - 1; i >= 0; i--) {
        const p = t.pts[i]
        const c = p.cost && p.take > 0 ? 1 : 0
        cost -= c // deviations before i
        if (p.take + 1 < p.n) {
          if (p.cost && cost + 1 > d) {
            more = true
          } else {
            prefix = taken.slice(0, i)
            prefix.push(p.take + 1)
            break
          }
        }
      }
    }
    rep.levels.push({ deviations: d, executions: execs, new_states: 0, done })
    if (!done) break
    rep.completed = d
    if (!more) {
      rep.completed = want
      rep.fully_explored = true
      break
    }
  }
  rep.states = states.size
  rep.distinct_outcomes = Object.keys(rep.outcomes).length
  rep.wall_s = (realNow() - t0) / 1000
  return rep
}

export async function cli(all: Scenario[]) {
  const a = process.argv.slice(2)
  const opt = (k: string) => {
    const i = a.indexOf('-' + k)
    return i < 0 ? '' : (a[i + 1] ?? '')
  }
  const tier = opt('tier') || 'quick'
  if (a.includes('-list')) {
    const p = opt('prop')
    console.log(JSON.stringify(all.filter((s) => !p || s.prop === p).map((s) => ({ name: s.prop + '/' + s.name, weight: s.weight ?? 1, race: false, gen: false, ts: true }))))
    return
  }
  const s = all.find((x) => x.prop + '/' + x.name === opt('run'))
  if (!s) {
    console.error('no such scenario')
    process.exit(3)
  }
  const st = new Status(opt('status'))
  if (a.includes('-do-replay')) {
    const p = opt('replay') && !opt('replay').startsWith('-') ? opt('replay').split(',').map(Number) : []
    st.put(1, 0, p)
    const t = await exec(s, tier, p, null, true)
    st.put(1, 1, p)
    if (a.includes('-trace')) for (const l of t.log!) console.log(l)
    console.log(`decisions=${t.pts.length} events=${t.steps} outcome=${t.out.join(' ')}`)
    console.log(t.fail ? 'VIOLATED: ' + t.fail : 'held')
    process.exit(t.fail ? 1 : 0)
  }
  const rep = await explore(s, tier, Number(opt('budget') || 10), Number(opt('bound') || -1), st)
  if (opt('out')) fs.writeFileSync(opt('out'), JSON.stringify(rep))
  else console.log(JSON.stringify(rep, null, 1))
  process.exit(0)
}
