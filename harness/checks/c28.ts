// C28: adapters users write themselves are driven by their contract: one per
// element (isolated) or one for all (shared), stopped exactly once and only when
// documented, never used once stopped, every event delivered once, every
// subscription ended. The adapters are recording stand-ins owned by the monitor.
import { defineIgniteConfig, igniteElementFactory, StateScope } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { type Case, drainReported, type Rng, suite, type T, uniqueName, violate, withConsole } from "../lib/core";

type State = unknown;
type Listener = (s: State) => void;
class Tape {
	readonly listeners = new Set<Listener>();
	readonly got: unknown[] = [];
	readonly late: string[] = [];
	stops = 0;
	everSubscribed = 0;
	doubleUnsubscribes = 0;
	subscribedAtStop = 0;
	state: State;
	scope?: string;
	constructor(
		readonly id: number,
		readonly style: { eager: boolean; queued: boolean; classy: boolean; falsy: boolean },
		readonly log: string[],
		private readonly pending: Array<() => void>,
		private readonly pick: () => State,
	) {
		this.state = pick();
	}
	change(): void {
		this.state = this.pick();
		const tell = () => {
			for (const l of [...this.listeners]) l(this.state);
		};
		if (this.style.queued) this.pending.push(tell);
		else tell();
	}
	doSubscribe(l: Listener): { unsubscribe: () => void } {
		this.everSubscribed += 1;
		if (this.stops) this.late.push("subscribe");
		// each call is a subscription of its own, even of one function
		const entry: Listener = (s) => l(s);
		this.listeners.add(entry);
		if (this.style.eager) entry(this.state);
		return {
			unsubscribe: () => {
				if (!this.listeners.delete(entry)) this.doubleUnsubscribes += 1;
			},
		};
	}
	doSend(e: unknown): void {
		if (this.stops) this.late.push("send");
		this.got.push(e);
		if ((e as { quiet?: boolean } | null)?.quiet) return;
		this.change();
	}
	doStop(): void {
		this.stops += 1;
		this.subscribedAtStop = this.listeners.size;
	}
}
/** As users write them: a plain object of closures, or a class whose methods need `this`. */
class ClassAdapter {
	scope?: StateScope;
	constructor(private readonly tape: Tape) {}
	subscribe(l: Listener) {
		return this.tape.doSubscribe(l);
	}
	send(e: unknown) {
		this.tape.doSend(e);
	}
	getState() {
		return this.tape.state;
	}
	stop() {
		this.tape.doStop();
	}
}
function plainAdapter(tape: Tape) {
	return {
		subscribe: (l: Listener) => tape.doSubscribe(l),
		send: (e: unknown) => tape.doSend(e),
		getState: () => tape.state,
		stop: () => tape.doStop(),
	} as { subscribe: (l: Listener) => { unsubscribe: () => void }; send: (e: unknown) => void; getState: () => State; stop: () => void; scope?: StateScope };
}

type Mode = "isolated" | "isolated-default" | "shared-option" | "shared-factory" | "one-shared-adapter";
type Member = { el: HTMLElement; tag: string; connected: boolean; ever: boolean; args: Record<string, unknown> | null; extras: number; renders: number };

function run(t: T, rng: Rng, c: Case): void {
	const mode = rng.pick<Mode>(["isolated", "isolated-default", "shared-option", "shared-factory", "one-shared-adapter", "shared-option", "shared-factory"]);
	const cleanup = rng.pick([undefined, true, false, true]);
	const renderer = rng.pick(["ignite-jsx", "lit"] as const);
	const style = { eager: rng.bool(), queued: rng.bool(0.3), classy: rng.bool(), falsy: rng.bool(0.3) };
	c.note({ mode, cleanup, renderer, style });
	defineIgniteConfig({ renderer, logging: "off" });
	const log: string[] = [];
	const pending: Array<() => void> = [];
	const tapes: Tape[] = [];
	const tapeOf = new Map<unknown, Tape>();
	let serial = 0;
	const falsies: unknown[] = [0, "", false, null];
	const pick = () => (style.falsy && rng.bool(0.5) ? rng.pick(falsies) : rng.pick<unknown>([`s${serial++}`, { v: serial++ }, serial++, [serial++]]));
	const create = () => {
		const tape = new Tape(tapes.length, style, log, pending, pick);
		tapes.push(tape);
		const a = style.classy ? new ClassAdapter(tape) : plainAdapter(tape);
		tapeOf.set(a, tape);
		return a;
	};
	let fixed: ReturnType<typeof create> | null = null;
	const createAdapter: (() => unknown) & { scope?: StateScope } = () => {
		if (mode !== "one-shared-adapter") return create();
		fixed ??= create();
		fixed.scope = StateScope.Shared;
		return fixed;
	};
	if (mode === "shared-factory") createAdapter.scope = StateScope.Shared;
	const shared = mode === "shared-option" || mode === "shared-factory";
	const options: Record<string, unknown> = { cleanup };
	if (mode === "isolated") options.scope = StateScope.Isolated;
	if (mode === "shared-option") options.scope = StateScope.Shared;
	const byHost = new Map<unknown, Member>();
	const extraHosts = new Map<unknown, unknown[]>();
	const withExtra = rng.bool(0.7);
	if (withExtra)
		options.createAdditionalArgs = (adapter: unknown, host: unknown) => {
			if (!tapeOf.has(adapter)) violate("createAdditionalArgs was given something that is not the adapter");
			const list = extraHosts.get(host) ?? [];
			list.push(adapter);
			extraHosts.set(host, list);
			return { extra: `x${(tapeOf.get(adapter) as Tape).id}`, owner: host };
		};
	const text = (s: State) => JSON.stringify(s) ?? "undefined";
	const early = new Map<unknown, Record<string, unknown>>();
	const view = (args: Record<string, unknown>) => {
		if (withExtra) {
			const m = byHost.get(args.owner);
			if (m) {
				m.args = args;
				m.renders += 1;
			} else early.set(args.owner, args);
		}
		const line = `${text(args.state)}|${withExtra ? String(args.extra) : "-"}`;
		const send = () => (args.send as (e: unknown) => void)(clicked);
		if (renderer === "lit") return html`<p>${line}</p><button @click=${send}>b</button>`;
		return jsxs("div", { children: [jsx("p", { children: line }), jsx("button", { onClick: send, children: "b" })] });
	};
	let clicked: unknown = null;
	const register = (igniteElementFactory as unknown as (a: unknown, o: unknown) => (n: string, v: unknown) => void)(createAdapter, options);
	const tags = Array.from({ length: rng.range(1, 2) }, () => uniqueName("own"));
	for (const n of tags) register(n, view);
	const boxes = [0, 1].map(() => document.body.appendChild(document.createElement("div")));
	const members: Member[] = [];
	drainReported();
	const flush = () => {
		while (pending.length) (pending.shift() as () => void)();
	};
	const trace: string[] = [];

	const inspect = (step: string) => {
		const errors = drainReported();
		if (errors.length) violate(`[${mode}] after ${step}: an error was reported: ${String(errors[0])}`);
		const connected = members.filter((m) => m.connected);
		for (const tape of tapes) {
			if (tape.late.length) violate(`[${mode}] after ${step}: ${tape.late[0]} was called on adapter ${tape.id} after it was stopped`);
			if (tape.stops > 1) violate(`[${mode}] after ${step}: adapter ${tape.id} was stopped ${tape.stops} times`);
		}
		const live = tapes.filter((x) => !x.stops);
		t.observe("adapters-inspected", tapes.length);
		if (mode === "one-shared-adapter" || (shared && cleanup === false)) {
			if (tapes.some((x) => x.stops)) violate(`[${mode}] after ${step}: an adapter that is left to the user was stopped`);
			if (tapes.length > 1) violate(`[${mode}] after ${step}: ${tapes.length} adapters were made, one is shared by all`);
		}
		if (shared && cleanup !== false) {
			if (connected.length > 0 && live.length !== 1) violate(`[${mode}] after ${step}: ${connected.length} connected elements share ${live.length} running adapters`);
		}
		if (mode.startsWith("isolated")) {
			const expect = connected.length + members.filter((m) => !m.connected && !m.ever).length;
			if (live.length !== expect) violate(`[${mode}] after ${step}: ${live.length} adapters are running for ${expect} elements in use`);
			t.observe("private-stops", tapes.length - live.length);
		}
		const owners = new Set<Tape>();
		for (const m of connected) {
			// Which adapter an element uses is found by its effect: a quiet event sent through it.
			const probe = { quiet: true, from: members.indexOf(m), step };
			m.el.dispatchEvent(new CustomEvent("send", { detail: probe }));
			const hit = tapes.filter((x) => x.got.includes(probe));
			const times = hit.reduce((n, x) => n + x.got.filter((g) => g === probe).length, 0);
			if (hit.length !== 1 || times !== 1) violate(`[${mode}] after ${step}: an event sent by a connected element reached ${hit.length} adapters, ${times} times`);
			const tape = hit[0];
			if (tape.stops) violate(`[${mode}] after ${step}: a connected element uses a stopped adapter`);
			if (!shared && mode !== "one-shared-adapter") {
				if (owners.has(tape)) violate(`[${mode}] after ${step}: two elements share one private adapter`);
				if (tape.listeners.size !== 1) violate(`[${mode}] after ${step}: a connected element holds ${tape.listeners.size} subscriptions on its adapter`);
			}
			owners.add(tape);
			const want = `${text(tape.state)}|${withExtra ? `x${tape.id}` : "-"}`;
			const shown = m.el.shadowRoot?.querySelector("p")?.textContent;
			if (shown !== want) violate(`[${mode}/${renderer}] after ${step}: element ${members.indexOf(m)} shows ${shown}, its adapter holds ${want}`);
			t.observe("screens-compared");
			if (withExtra) {
				const made = extraHosts.get(m.el) ?? [];
				if (made.filter((a) => tapeOf.get(a) === tape).length !== 1) violate(`[${mode}] after ${step}: additional arguments were made ${made.filter((a) => tapeOf.get(a) === tape).length} times for one element and adapter`);
			}
		}
		if (shared || mode === "one-shared-adapter") {
			if (owners.size > 1) violate(`[${mode}] after ${step}: elements that share one adapter use ${owners.size}`);
			for (const tape of tapes) {
				const waiting = members.filter((m) => !m.connected && !m.ever).length;
				const n = tape.listeners.size;
				const mine = owners.has(tape) ? connected.length : 0;
				if (n < mine || n > mine + waiting) violate(`[${mode}] after ${step}: adapter ${tape.id} has ${n} subscriptions for ${mine} connected elements`);
			}
		} else for (const tape of tapes) if (tape.stops && tape.listeners.size) violate(`[${mode}] after ${step}: an element that left is still subscribed to its stopped adapter`);
		t.observe("quiescent-points");
	};

	/** Right after a removal. */
	const released = (step: string) => {
		if (!shared || cleanup === false || members.some((m) => m.connected)) return;
		t.observe("shared-releases");
		if (tapes.some((x) => !x.stops)) violate(`[${mode}] after ${step}: the shared adapter was not stopped when its last element left`);
	};

	const steps = rng.range(6, 30);
	for (let i = 0; i < steps; i++) {
		const up = members.filter((m) => m.connected);
		const down = members.filter((m) => !m.connected);
		const what = rng.weighted<string>([
			[members.length < 5 ? 3 : 0.3, "create"],
			[members.length < 5 ? 1.5 : 0.2, "parse"],
			[down.length ? 4 : 0, "connect"],
			[up.length ? 3 : 0, "disconnect"],
			[up.length ? 1.5 : 0, "move"],
			[up.length ? 0.8 : 0, "drain"],
			[up.length ? 4 : 0, "send"],
			[up.length ? 2 : 0, "click"],
			[tapes.length ? 2 : 0, "direct"],
			[down.length ? 1 : 0, "dead-send"],
			[pending.length ? 2 : 0, "flush"],
		]);
		let step = what;
		const fresh = (el: HTMLElement, tag: string, on: boolean): Member => {
			const m: Member = { el, tag, connected: on, ever: on, args: early.get(el) ?? null, extras: 0, renders: 0 };
			byHost.set(el, m);
			members.push(m);
			return m;
		};
		if (what === "create") fresh(document.createElement(rng.pick(tags)), tags[0], false);
		else if (what === "parse") {
			const box = rng.pick(boxes);
			const tag = rng.pick(tags);
			box.insertAdjacentHTML("beforeend", `<${tag}></${tag}>`);
			fresh(box.lastElementChild as HTMLElement, tag, true);
		} else if (what === "connect") {
			const m = rng.pick(down);
			m.connected = m.ever = true;
			rng.pick(boxes).appendChild(m.el);
			step += `#${members.indexOf(m)}`;
		} else if (what === "disconnect") {
			const m = rng.pick(up);
			m.connected = false;
			m.el.remove();
			step += `#${members.indexOf(m)}`;
		} else if (what === "move") {
			const m = rng.pick(up);
			rng.pick(boxes).appendChild(m.el);
			step += `#${members.indexOf(m)}`;
		} else if (what === "drain") {
			for (const m of rng.shuffle(up)) {
				m.connected = false;
				m.el.remove();
			}
		} else if (what === "send" || what === "click") {
			const m = rng.pick(up);
			const e = { k: i };
			const before = tapes.reduce((n, x) => n + x.got.length, 0);
			if (what === "click") {
				clicked = e;
				(m.el.shadowRoot?.querySelector("button") as HTMLElement).click();
			} else if (m.args && rng.bool()) (m.args.send as (x: unknown) => void)(e);
			else m.el.dispatchEvent(new CustomEvent("send", { detail: e }));
			const hits = tapes.reduce((n, x) => n + x.got.filter((g) => g === e).length, 0);
			const after = tapes.reduce((n, x) => n + x.got.length, 0);
			if (hits !== 1 || after !== before + 1) violate(`[${mode}] an event sent through an element (${what}) reached adapters ${hits} times as the same object, ${after - before} times in all`);
			t.observe("events");
			step += `#${members.indexOf(m)}`;
		} else if (what === "direct") rng.pick(tapes).change();
		else if (what === "dead-send") {
			const m = rng.pick(down);
			const e = { k: i };
			withConsole(() => {
				m.el.dispatchEvent(new CustomEvent("send", { detail: e }));
				if (m.args) (m.args.send as (x: unknown) => void)(e);
			});
			if (tapes.some((x) => x.got.includes(e))) violate(`[${mode}] an event sent to an element that is not connected reached an adapter`);
		} else flush();
		if (what === "disconnect" || what === "drain") released(step);
		trace.push(step.replace(/#.*/, ""));
		c.note(step);
		if (style.queued) {
			if (rng.bool(0.4)) continue;
			flush();
		}
		inspect(step);
	}
	flush();
	for (const m of members) if (m.connected) {
		m.connected = false;
		m.el.remove();
		released("final removal");
		inspect("final removal");
	}
	for (const x of tapes) t.observe("stops", x.stops);
	if (members.length) t.distinct(`${mode}/${String(cleanup)}/${renderer}/${JSON.stringify(style)}/${trace.join(" ")}`);
	t.sample({ mode, cleanup, renderer, style, trace });
	for (const b of boxes) b.remove();
}

export default suite(async (t) => {
	await t.cases("history", t.scale(400, 6000), (rng, _i, c) => run(t, rng, c));
});
