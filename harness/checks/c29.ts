// C29: every element renders through its own instance of the strategy its
// component was given (createRenderStrategy) or that is registered under the
// configured name: attached once, before anything is rendered, to that element's
// shadow root, then handed exactly what the view returned, once per render, and
// last of all the view of the current state. The strategies are recorders.
import { defineIgniteConfig, igniteElementFactory, registerRenderStrategy, resolveConfiguredRenderStrategy, StateScope } from "@repo/src/index";
import "@repo/src/renderers/lit";
import "@repo/src/renderers/ignite-jsx";
import { igniteCore as mobxCore } from "@repo/src/mobx";
import { igniteCore as reduxCore } from "@repo/src/redux";
import { igniteCore as xstateCore } from "@repo/src/xstate";
import { configureStore } from "@reduxjs/toolkit";
import { makeAutoObservable } from "mobx";
import { assign, createActor, createMachine } from "xstate";
import { type Case, drainReported, type Rng, suite, type T, uniqueName, violate } from "../lib/core";

// The genuine strategies, put back after every case.
defineIgniteConfig({ renderer: "lit" });
const genuineLit = resolveConfiguredRenderStrategy();
defineIgniteConfig({ renderer: "ignite-jsx" });
const genuineJsx = resolveConfiguredRenderStrategy();

class Recorder {
	attached: ShadowRoot[] = [];
	rendered: unknown[] = [];
	detached = 0;
	early = 0;
	hook: ((r: Recorder) => void) | null = null;
	constructor(
		readonly id: number,
		readonly family: string,
	) {}
	attach(host: ShadowRoot) {
		this.attached.push(host);
	}
	render(view: unknown) {
		if (!this.attached.length) this.early += 1;
		this.rendered.push(view);
		this.hook?.(this);
	}
}

function run(t: T, rng: Rng, c: Case): void {
	const recorders: Recorder[] = [];
	const factoryOf = (family: string, mode: "class" | "plain" | "with-detach") => () => {
		const r = new Recorder(recorders.length, family);
		recorders.push(r);
		if (mode === "class") return r;
		const o: Record<string, unknown> = { attach: (h: ShadowRoot) => r.attach(h), render: (v: unknown) => r.render(v) };
		if (mode === "with-detach") o.detach = () => r.detached++;
		return o;
	};
	const how = rng.pick(["option", "option", "registered", "re-registered"] as const);
	const name = rng.pick(["lit", "ignite-jsx"] as const);
	const shape = rng.pick(["class", "plain", "with-detach"] as const);
	const kind: string = how === "option" ? rng.pick(["custom-shared", "custom-isolated"]) : rng.pick(["custom-shared", "custom-isolated", "redux", "mobx", "xstate-machine", "xstate-actor"] as const);
	c.note({ how, name, shape, kind });
	const boxes = [0, 1].map(() => document.body.appendChild(document.createElement("div")));
	try {
		// what the configuration alone would select
		const byConfig = factoryOf("configured", shape);
		defineIgniteConfig({ renderer: name, logging: "off" });
		if (how === "registered" || how === "re-registered") registerRenderStrategy(name, byConfig as never);
		const expectFamily = how === "option" ? "own" : "configured";
		const own = factoryOf("own", shape);

		// A counter over some source.
		let truth: ((el: HTMLElement) => number) | undefined;
		let bump: () => void = () => {};
		let register: (tag: string, v: unknown) => void;
		const option = how === "option" ? { createRenderStrategy: own } : {};
		const ext: Record<string, unknown> = {
			...option,
			states: (s: { n?: number; context?: { n: number } }) => ({ n: s.context?.n ?? s.n }),
		};
		let shared = true;
		if (kind.startsWith("custom")) {
			shared = kind === "custom-shared";
			const mk = () => {
				let n = 0;
				const ls = new Set<(s: unknown) => void>();
				const a = {
					subscribe: (l: (s: unknown) => void) => {
						const e = (s: unknown) => l(s);
						ls.add(e);
						return { unsubscribe: () => ls.delete(e) };
					},
					send: () => {
						n += 1;
						for (const l of [...ls]) l({ n });
					},
					getState: () => ({ n }),
					stop: () => {},
				};
				if (shared) bump = () => a.send();
				return a;
			};
			register = (igniteElementFactory as unknown as (a: unknown, o: unknown) => (n: string, v: unknown) => void)(mk, { ...option, cleanup: false, scope: shared ? StateScope.Shared : StateScope.Isolated, createAdditionalArgs: (a: { getState: () => { n: number } }, host: HTMLElement) => ({ host, read: () => a.getState().n }) });
		} else if (kind === "redux") {
			const store = configureStore({ reducer: (s: { n: number } = { n: 0 }, a: { type: string }) => (a.type === "inc" ? { n: s.n + 1 } : s) });
			bump = () => store.dispatch({ type: "inc" });
			register = (reduxCore as unknown as (o: unknown) => (n: string, v: unknown) => void)({ source: store, ...ext });
			truth = () => store.getState().n;
		} else if (kind === "mobx") {
			const store = makeAutoObservable({
				n: 0,
				inc() {
					this.n += 1;
				},
			});
			bump = () => store.inc();
			register = (mobxCore as unknown as (o: unknown) => (n: string, v: unknown) => void)({ source: store, ...ext });
			truth = () => store.n;
		} else {
			const machine = createMachine({ context: { n: 0 }, on: { inc: { actions: assign({ n: ({ context }) => (context as { n: number }).n + 1 }) } } });
			if (kind === "xstate-actor") {
				const actor = createActor(machine).start();
				bump = () => actor.send({ type: "inc" });
				register = (xstateCore as unknown as (o: unknown) => (n: string, v: unknown) => void)({ source: actor, ...ext });
				truth = () => (actor.getSnapshot().context as { n: number }).n;
			} else {
				shared = false;
				register = (xstateCore as unknown as (o: unknown) => (n: string, v: unknown) => void)({ source: machine, ...ext });
			}
		}
		const pool = (n: number): unknown => rng.pick<() => unknown>([() => ({ view: n }), () => `v${n}`, () => [n, { deep: n }], () => n, () => null, () => undefined, () => Symbol(`v${n}`), () => () => n, () => Object.freeze({ f: n })])();
		const calls: Array<{ view: unknown; n: number }> = [];
		let inView: ((send: (e: unknown) => void) => void) | null = null;
		const tag = uniqueName("strat");
		register(tag, (args: Record<string, unknown>) => {
			const n = (args.n as number | undefined) ?? (args.state as { n: number }).n;
			const view = pool(n);
			calls.push({ view, n });
			const act = inView;
			inView = null;
			act?.(args.send as (e: unknown) => void);
			return view;
		});
		// Whatever is configured or registered after the definition is for later components only.
		if (rng.bool(0.6)) defineIgniteConfig({ renderer: name === "lit" ? "ignite-jsx" : "lit", logging: "off" });
		const later = factoryOf("later", shape);
		if (how === "re-registered" || rng.bool(0.3)) {
			registerRenderStrategy("lit", later as never);
			registerRenderStrategy("ignite-jsx", later as never);
		}
		type M = { el: HTMLElement; on: boolean; rec: Recorder; known: number; n: number };
		const members: M[] = [];
		let total = 0;
		drainReported();
		const check = (step: string) => {
			const errors = drainReported();
			if (errors.length) violate(`[${kind}/${how}] after ${step}: ${String(errors[0])}`);
			if (recorders.length !== members.length) violate(`[${kind}/${how}] after ${step}: ${recorders.length} strategies were made for ${members.length} elements`);
			const all: unknown[] = [];
			for (const m of members) {
				const r = m.rec;
				if (r.family !== expectFamily) violate(`[${kind}/${how}] after ${step}: an element renders through the ${r.family} strategy instead of the ${expectFamily} one`);
				if (r.attached.length !== 1 || r.attached[0] !== m.el.shadowRoot) violate(`[${kind}/${how}] after ${step}: a strategy was attached ${r.attached.length} times, or to another root`);
				if (r.early) violate(`[${kind}/${how}] after ${step}: rendered before it was attached`);
				if (m.on && !r.rendered.length) violate(`[${kind}/${how}] after ${step}: a connected element never rendered`);
				if (!m.on && r.rendered.length !== m.known) violate(`[${kind}/${how}] after ${step}: an element outside the document rendered`);
				m.known = r.rendered.length;
				all.push(...r.rendered);
				if (m.on) {
					const last = r.rendered[r.rendered.length - 1];
					const want = shared && truth ? truth(m.el) : shared ? sharedCount : m.n;
					const from = calls.filter((x) => Object.is(x.view, last));
					if (!from.length) violate(`[${kind}/${how}] after ${step}: the strategy was given something no view returned`);
					else if (!from.some((x) => x.n === want)) violate(`[${kind}/${how}] after ${step}: the strategy last got the view of ${from.map((x) => x.n)}, the state is ${want}`);
				}
				t.observe("strategies-inspected");
			}
			// Every view call was handed to a strategy exactly once, in some order.
			if (all.length !== calls.length) violate(`[${kind}/${how}] after ${step}: views were computed ${calls.length} times and rendered ${all.length} times`);
			const left = [...calls.map((x) => x.view)];
			for (const v of all) {
				const k = left.findIndex((x) => Object.is(x, v));
				if (k < 0) violate(`[${kind}/${how}] after ${step}: a strategy was given a value no view returned`);
				left.splice(k, 1);
			}
			total = all.length;
			t.observe("quiescent-points");
		};
		let sharedCount = 0;
		const trace: string[] = [];
		const send = (el: HTMLElement) => el.dispatchEvent(new CustomEvent("send", { detail: { type: "inc" } }));
		for (let i = rng.range(5, 22); i > 0; i--) {
			const up = members.filter((m) => m.on);
			const down = members.filter((m) => !m.on);
			const step = rng.weighted<string>([
				[members.length < 4 ? 3 : 0.2, "create"],
				[down.length ? 4 : 0, "connect"],
				[up.length ? 2 : 0, "disconnect"],
				[up.length ? 1 : 0, "move"],
				[up.length && kind !== "mobx" ? 4 : 0, "send"],
				[shared && kind !== "custom-shared" ? 3 : 0, "bump"],
				[up.length && kind !== "mobx" ? 1 : 0, "reentrant"],
				[up.length && kind !== "mobx" ? 1 : 0, "reentrant-view"],
			]);
			if (step === "create") {
				const el = document.createElement(tag);
				if (recorders.length !== members.length + 1) violate(`[${kind}/${how}] making an element made ${recorders.length - members.length} strategies`);
				members.push({ el, on: false, rec: recorders[recorders.length - 1], known: 0, n: 0 });
			} else if (step === "connect") {
				const m = rng.pick(down);
				m.on = true;
				m.n = 0;
				rng.pick(boxes).appendChild(m.el);
			} else if (step === "disconnect") {
				const m = rng.pick(up);
				m.on = false;
				m.el.remove();
				m.known = m.rec.rendered.length;
			} else if (step === "move") {
				const m = rng.pick(up);
				m.n = 0;
				rng.pick(boxes).appendChild(m.el);
			} else if (step === "send") {
				const m = rng.pick(up);
				m.n += 1;
				sharedCount += 1;
				send(m.el);
			} else if (step === "reentrant") {
				// The strategy's own work changes the state once while it renders.
				const m = rng.pick(up);
				m.rec.hook = (r) => {
					r.hook = null;
					m.n += 1;
					sharedCount += 1;
					send(m.el);
				};
				m.n += 1;
				sharedCount += 1;
				send(m.el);
				t.observe("reentrant");
			} else if (step === "reentrant-view") {
				// The view itself changes the state once.
				const m = rng.pick(up);
				inView = (toSource) => {
					m.n += 1;
					sharedCount += 1;
					toSource({ type: "inc" });
				};
				m.n += 1;
				sharedCount += 1;
				send(m.el);
				t.observe("reentrant-views");
			} else {
				sharedCount += 1;
				bump();
			}
			trace.push(step);
			c.note(step);
			check(step);
		}
		t.observe("renders", total);
		if (members.length) t.distinct(`${kind}/${how}/${name}/${shape}/${trace.join(" ")}`);
		t.sample({ kind, how, name, shape, trace });
		for (const m of members) m.el.remove();
	} finally {
		registerRenderStrategy("lit", genuineLit);
		registerRenderStrategy("ignite-jsx", genuineJsx);
		defineIgniteConfig({ renderer: "ignite-jsx" });
		for (const b of boxes) b.remove();
	}
}

export default suite(async (t) => {
	await t.cases("history", t.scale(500, 8000), (rng, _i, c) => run(t, rng, c));
});
