// Shared run-time for every check: seeded randomness, case bookkeeping,
// violation recording. A check is `export default suite(id, async (t) => {...})`.
import { writeFileSync } from "node:fs";

export type Job = {
	heartbeat: string;
	id: string;
	tier: "quick" | "thorough";
	seed: number;
	shard: number;
	shards: number;
	scratch: string;
	repo: string;
	verif: string;
	onlyCase: number | null;
	onlyGroup: string | null;
};
type State = {
	evaluations: number;
	distinct: string[];
	observed: Record<string, number>;
	samples: unknown[];
	violations: Array<{
		what: string;
		witness: unknown;
		group: string;
		case: number;
		signature?: string;
	}>;
	error: string | null;
};

export class Rng {
	private s: number;
	constructor(seed: number) {
		this.s = seed >>> 0 || 0x9e3779b9;
	}
	u32(): number {
		this.s = (this.s + 0x6d2b79f5) >>> 0;
		let t = this.s;
		t = Math.imul(t ^ (t >>> 15), t | 1);
		t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
		return (t ^ (t >>> 14)) >>> 0;
	}
	f(): number {
		return this.u32() / 4294967296;
	}
	int(n: number): number {
		return n <= 0 ? 0 : Math.floor(this.f() * n);
	}
	range(lo: number, hi: number): number {
		return lo + this.int(hi - lo + 1);
	}
	bool(p = 0.5): boolean {
		return this.f() < p;
	}
	pick<T>(xs: readonly T[]): T {
		return xs[this.int(xs.length)];
	}
	weighted<T>(xs: readonly (readonly [number, T])[]): T {
		let total = 0;
		for (const [w] of xs) total += w;
		let r = this.f() * total;
		for (const [w, v] of xs) {
			r -= w;
			if (r < 0) return v;
		}
		return xs[xs.length - 1][1];
	}
	shuffle<T>(xs: T[]): T[] {
		const a = [...xs];
		for (let i = a.length - 1; i > 0; i--) {
			const j = this.int(i + 1);
			[a[i], a[j]] = [a[j], a[i]];
		}
		return a;
	}
	sample<T>(xs: readonly T[], k: number): T[] {
		return this.shuffle([...xs]).slice(0, k);
	}
}

export function hash(text: string): string {
	let h1 = 0xdeadbeef;
	let h2 = 0x41c6ce57;
	for (let i = 0; i < text.length; i++) {
		const ch = text.charCodeAt(i);
		h1 = Math.imul(h1 ^ ch, 2654435761);
		h2 = Math.imul(h2 ^ ch, 1597334677);
	}
	h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
	h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
	return (h2 >>> 0).toString(16).padStart(8, "0") + (h1 >>> 0).toString(16).padStart(8, "0");
}

export class Violation extends Error {
	constructor(
		readonly what: string,
		readonly witness?: unknown,
		readonly signature?: string,
	) {
		super(what);
	}
}

export function violate(what: string, witness?: unknown, signature?: string): never {
	throw new Violation(what, witness, signature);
}

export type T = {
	job: Job;
	thorough: boolean;
	/** scale(q, th): quick or thorough amount. */
	scale(quick: number, thorough: number): number;
	/** Run n independent cases; each has its own PRNG so it can be replayed alone. */
	cases(
		group: string,
		n: number,
		fn: (rng: Rng, index: number, c: Case) => unknown,
	): Promise<void>;
	observe(key: string, n?: number): void;
	/** Further evaluations inside one case (the case itself counts as one). */
	evaluated(n?: number): void;
	distinct(key: string): void;
	sample(x: unknown): void;
};
export type Case = {
	group: string;
	index: number;
	/** Describe the case for the witness should it fail. */
	note(x: unknown): void;
	log: unknown[];
};

const MAX_VIOLATIONS = 6;

export function suite(main: (t: T) => Promise<void>) {
	return async (job: Job, state: State): Promise<void> => {
		const distinct = new Set<string>();
		const t: T = {
			job,
			thorough: job.tier === "thorough",
			scale: (q, th) => (job.tier === "thorough" ? th : 2 * q),
			observe(key, n = 1) {
				state.observed[key] = (state.observed[key] ?? 0) + n;
			},
			evaluated(n = 1) {
				state.evaluations += n;
			},
			distinct(key) {
				if (distinct.size < 400000) distinct.add(hash(key));
			},
			sample(x) {
				if (state.samples.length < 3) state.samples.push(clip(x));
			},
			async cases(group, n, fn) {
				if (job.onlyGroup !== null && job.onlyGroup !== group) return;
				for (let i = 0; i < n; i++) {
					if (job.onlyCase !== null && job.onlyCase !== i) continue;
					if (state.violations.length >= MAX_VIOLATIONS) return;
					const rng = new Rng(
						Number.parseInt(hash(`${job.seed}/${job.shard}/${group}/${i}`).slice(0, 8), 16),
					);
					const c: Case = { group, index: i, log: [], note: (x) => c.log.push(x) };
					state.evaluations += 1;
					// Left behind should the case never return, for the watchdog to report.
					writeFileSync(job.heartbeat, JSON.stringify({ group, case: i, at: Date.now() }));
					try {
						await fn(rng, i, c);
					} catch (e) {
						if (e instanceof Violation) {
							state.violations.push({
								what: e.what,
								witness: clip({ detail: e.witness, log: c.log.slice(-60) }),
								group,
								case: i,
								signature: e.signature,
							});
						} else {
							// The harness never throws on its own on a tree where the property
							// holds: an exception escaping the code under test is a violation of
							// the operation that raised it.
							state.violations.push({
								what: `unexpected exception in ${group}#${i}: ${String((e as Error)?.stack ?? e).slice(0, 600)}`,
								witness: clip({ log: c.log.slice(-60) }),
								group,
								case: i,
							});
						}
					}
				}
			},
		};
		try {
			await main(t);
		} catch (e) {
			state.error = String((e as Error)?.stack ?? e).slice(0, 3000);
		}
		state.distinct = [...distinct];
	};
}

export function clip(x: unknown, depth = 0): unknown {
	if (typeof x === "string") return x.length > 1500 ? `${x.slice(0, 1500)}…(${x.length})` : x;
	if (typeof x === "function") return `[function ${x.name}]`;
	if (typeof x === "symbol" || typeof x === "bigint") return String(x);
	if (x === undefined) return "[undefined]";
	if (x === null || typeof x !== "object") return typeof x === "number" && !Number.isFinite(x) ? String(x) : x;
	if (depth > 7) return "…";
	if (Array.isArray(x)) {
		const a = x.slice(0, 60).map((v) => clip(v, depth + 1));
		if (x.length > 60) a.push(`…(${x.length})`);
		return a;
	}
	if (x instanceof Error) return `${x.name}: ${x.message}`;
	const out: Record<string, unknown> = {};
	let n = 0;
	for (const [k, v] of Object.entries(x as Record<string, unknown>)) {
		if (n++ > 40) break;
		out[k] = clip(v, depth + 1);
	}
	return out;
}

/** Silences and records console output while fn runs. */
export type ConsoleLine = { level: string; text: string };
export function withConsole<R>(fn: (lines: ConsoleLine[]) => R): R {
	const lines: ConsoleLine[] = [];
	const levels = ["log", "info", "warn", "error", "debug"] as const;
	const saved = levels.map((l) => console[l]);
	levels.forEach((l) => {
		console[l] = (...args: unknown[]) => {
			lines.push({ level: l, text: args.map((a) => (typeof a === "string" ? a : safe(a))).join(" ") });
		};
	});
	const restore = () => levels.forEach((l, i) => (console[l] = saved[i]));
	try {
		const r = fn(lines);
		if (r && typeof (r as unknown as Promise<unknown>).then === "function") {
			return (r as unknown as Promise<unknown>).finally(restore) as unknown as R;
		}
		restore();
		return r;
	} catch (e) {
		restore();
		throw e;
	}
}
function safe(a: unknown): string {
	try {
		return a instanceof Error ? `${a.name}: ${a.message}` : (JSON.stringify(a) ?? String(a));
	} catch {
		return String(a);
	}
}

let uid = 0;
const job = (globalThis as unknown as { __VERIF_JOB__?: Job }).__VERIF_JOB__;
export const uniqueName = (prefix = "x"): string => `${prefix}-s${job?.shard ?? 0}-n${uid++}`;

export const tick = (): Promise<void> => new Promise((r) => setTimeout(r, 0));
export const micro = (): Promise<void> => Promise.resolve();

/** Errors the DOM reported (thrown from listeners and element reactions). */
export function drainReported(): unknown[] {
	const g = globalThis as unknown as { __reported?: unknown[]; __uncaught?: unknown[] };
	const out = [...(g.__reported ?? []), ...(g.__uncaught ?? [])];
	if (g.__reported) g.__reported.length = 0;
	if (g.__uncaught) g.__uncaught.length = 0;
	return out;
}
