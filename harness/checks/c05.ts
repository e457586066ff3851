// C05: at every quiescent point a connected element shows exactly its source's
// current state, whatever the source library, state shape, route or timing.
import { defineIgniteConfig, igniteElementFactory, StateScope } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import { igniteCore as coreMobx } from "@repo/src/mobx";
import { igniteCore as coreRedux } from "@repo/src/redux";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { igniteCore as coreXState } from "@repo/src/xstate";
import { configureStore } from "@reduxjs/toolkit";
import { html } from "lit-html";
import { action, observable, runInAction } from "mobx";
import { assign, createActor, createMachine, fromPromise } from "xstate";
import { drainReported, type Rng, suite, tick, uniqueName, violate } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";

type Any = any;

/** Deterministic text of any state value, independent of the code under test. */
export function text(x: Any, seen: Any[] = []): string {
	if (x === null) return "null";
	if (typeof x === "number") return Object.is(x, -0) ? "-0" : String(x);
	if (typeof x === "string") return JSON.stringify(x);
	if (typeof x !== "object") return String(x);
	if (seen.includes(x)) return "<cycle>";
	const s = [...seen, x];
	if (Array.isArray(x)) return `[${x.map((v) => text(v, s)).join(",")}]`;
	if (x instanceof Map || (x[Symbol.toStringTag] === "Map" && x.entries)) return `Map{${[...x.entries()].map(([k, v]: Any) => `${text(k, s)}:${text(v, s)}`).join(",")}}`;
	if (x instanceof Set || (x[Symbol.toStringTag] === "Set" && x.values)) return `Set{${[...x.values()].map((v: Any) => text(v, s)).join(",")}}`;
	if (x instanceof Date) return `Date(${x.getTime()})`;
	return `{${Object.keys(x)
		.filter((k) => typeof x[k] !== "function")
		.sort()
		.map((k) => `${k}:${text(x[k], s)}`)
		.join(",")}}`;
}

export function genValue(rng: Rng, depth = 0): Any {
	return rng.weighted<() => Any>([
		[1, () => 0],
		[1, () => ""],
		[1, () => false],
		[1, () => null],
		[1, () => true],
		[1, () => rng.pick([1, -1, 3.25, 1e9])],
		[1, () => rng.pick(["a", "b", "ünï", "<i>"])],
		[depth > 2 ? 0 : 2, () => Array.from({ length: rng.int(4) }, () => genValue(rng, depth + 1))],
		[depth > 2 ? 0 : 3, () => Object.fromEntries(rng.sample(["k", "l", "m", "state", "value", "length", "type"], rng.int(4)).map((k) => [k, genValue(rng, depth + 1)]))],
	])();
}

const show = (renderer: string, s: string, extra: Any = null) =>
	renderer === "lit" ? html`<output>${s}</output>${extra}` : jsxs("div", { children: [jsx("output", { children: s }), extra] as never });
const onScreen = (el: Element): string => el.shadowRoot?.querySelector("output")?.textContent ?? "<nothing rendered>";

type Probe = { els: HTMLElement[]; truth: () => string; mutate: (rng: Rng) => string; dispose?: () => void };

const SHAPES: Record<string, (rng: Rng, renderer: string) => Probe> = {
	"redux-any-root": (rng, renderer) => {
		const first = genValue(rng);
		const make = () => configureStore({ reducer: ((s: Any = first, a: Any) => (a.type === "set" ? a.v : s)) as never, preloadedState: first as never, middleware: ((g: Any) => g({ serializableCheck: false, immutableCheck: false })) as never });
		const store = make() as Any;
		const name = uniqueName("shape");
		coreRedux({ source: store } as never)(name, (({ state }: Any) => show(renderer, text(state))) as never);
		return { els: spawn(name, rng.range(1, 3)), truth: () => text(store.getState()), mutate: (r) => (store.dispatch({ type: "set", v: genValue(r) }), "set") };
	},
	"redux-multi-slice": (_rng, renderer) => {
		const set = (key: string) => (s: Any = 0, a: Any) => (a.type === `set/${key}` ? a.v : s);
		const store = configureStore({ reducer: { a: set("a"), b: set("b"), c: set("c") } as never, middleware: ((g: Any) => g({ serializableCheck: false, immutableCheck: false })) as never }) as Any;
		const name = uniqueName("shape");
		coreRedux({ source: store, states: (s: Any) => ({ onlyA: s.a }) } as never)(name, (({ state, onlyA }: Any) => show(renderer, `${text(state)}|${text(onlyA)}`)) as never);
		return {
			els: spawn(name, 2),
			truth: () => `${text(store.getState())}|${text(store.getState().a)}`,
			mutate: (r) => {
				const k = r.pick(["a", "b", "c"]);
				store.dispatch({ type: `set/${k}`, v: genValue(r) });
				return k;
			},
		};
	},
	"mobx-collections": (rng, renderer) => {
		const store = observable({ map: new Map<Any, Any>(), set: new Set<Any>(), list: [] as Any[], nested: { x: { y: { z: 0 as Any } } }, extra: {} as Any, zero: 0 as Any, run: action((f: () => void) => f()) }) as Any;
		const name = uniqueName("shape");
		coreMobx({ source: store } as never)(name, (({ state }: Any) => show(renderer, text(state))) as never);
		return {
			els: spawn(name, rng.range(1, 3)),
			truth: () => text(store),
			mutate: (r) => {
				const how = r.pick(["map.set", "map.delete", "set.add", "set.clear", "push", "splice", "deep", "replace-nested", "new-key", "delete-key", "zero", "batch"]);
				const once = (h: string) => {
					switch (h) {
						case "map.set":
							return store.map.set(r.int(4), genValue(r));
						case "map.delete":
							return store.map.delete(r.int(4));
						case "set.add":
							return store.set.add(r.int(5));
						case "set.clear":
							return store.set.clear();
						case "push":
							return store.list.push({ v: genValue(r) });
						case "splice":
							return store.list.splice(0, 1);
						case "deep":
							if (store.list.length) store.list[r.int(store.list.length)].v = r.int(100);
							store.nested.x.y.z = genValue(r);
							return;
						case "replace-nested":
							store.nested = { x: { y: { z: r.int(99) } } };
							return;
						case "new-key":
							store.extra[`k${r.int(5)}`] = genValue(r);
							return;
						case "delete-key":
							delete store.extra[`k${r.int(5)}`];
							return;
						case "zero":
							store.zero = r.pick([0, "", false, null, 1]);
							return;
					}
				};
				runInAction(() => {
					if (how === "batch") for (let i = 0; i < 4; i++) once(r.pick(["map.set", "push", "deep", "zero"]));
					else once(how);
				});
				return how;
			},
		};
	},
	"xstate-context": (rng, renderer) => {
		const machine = createMachine({
			type: "parallel",
			context: { v: genValue(rng), list: [] } as Any,
			states: {
				left: { initial: "a", states: { a: { on: { L: "b" } }, b: { initial: "b1", states: { b1: { on: { L: "b2" } }, b2: { on: { L: "#x.left.a" } } } } } },
				right: { initial: "off", states: { off: { on: { R: "on" } }, on: { on: { R: "off" } } } },
			},
			id: "x",
			on: { SET: { actions: assign({ v: ({ event }: Any) => event.v }) as never }, PUSH: { actions: assign({ list: ({ context, event }: Any) => [...context.list, event.v] }) as never } },
		} as never);
		const actor = createActor(machine) as Any;
		actor.start();
		const name = uniqueName("shape");
		coreXState({ source: actor } as never)(name, (({ state }: Any) => show(renderer, `${text(state.value)}|${text(state.context)}|${text(state.v)}|${state.matches?.("left.a")}`)) as never);
		return {
			els: spawn(name, rng.range(1, 2)),
			truth: () => {
				const s = actor.getSnapshot();
				return `${text(s.value)}|${text(s.context)}|${text(s.context.v)}|${s.value.left === "a"}`;
			},
			mutate: (r) => {
				const e = r.pick(["L", "R", "SET", "PUSH"]);
				actor.send({ type: e, v: genValue(r) });
				return e;
			},
			dispose: () => actor.stop(),
		};
	},
	"custom-adapter": (rng, renderer) => {
		let value: Any = genValue(rng);
		const listeners = new Set<(v: Any) => void>();
		const isolated = rng.bool();
		const factory = Object.assign(
			() => ({
				scope: isolated ? StateScope.Isolated : StateScope.Shared,
				subscribe(l: (v: Any) => void) {
					listeners.add(l);
					l(value);
					return { unsubscribe: () => void listeners.delete(l) };
				},
				send(e: Any) {
					value = e;
					for (const l of [...listeners]) l(value);
				},
				getState: () => value,
				stop() {},
			}),
			{ scope: isolated ? StateScope.Isolated : StateScope.Shared },
		);
		const name = uniqueName("shape");
		igniteElementFactory(factory as never)(name, (({ state }: Any) => show(renderer, text(state))) as never);
		return {
			els: spawn(name, rng.range(1, 2)),
			truth: () => text(value),
			mutate: (r) => {
				value = genValue(r);
				for (const l of [...listeners]) l(value);
				return text(value);
			},
		};
	},
};

function spawn(name: string, n: number): HTMLElement[] {
	return Array.from({ length: n }, () => document.body.appendChild(document.createElement(name)) as HTMLElement);
}

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 300, thorough: 6000, kinds: KINDS, tags: ["view", "error"] });

	const shapes = Object.keys(SHAPES);
	await t.cases("shapes", t.scale(100, 2500), (rng, i, c) => {
		const renderer = rng.bool(0.6) ? "ignite-jsx" : "lit";
		defineIgniteConfig({ renderer, strategy: rng.pick(["diff", "replace"]), logging: "off" } as never);
		const shape = shapes[i % shapes.length];
		c.note({ shape, renderer });
		const p = SHAPES[shape](rng, renderer);
		const judge = (after: string) => {
			const errors = drainReported();
			if (errors.length) violate(`[${shape}/${renderer}] after ${after}: ${String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300)}`);
			const want = p.truth();
			for (const el of p.els) {
				const got = onScreen(el);
				t.observe("screens-compared");
				if (got !== want) violate(`[${shape}/${renderer}] after ${after}: element shows ${got}, source holds ${want}`);
			}
		};
		judge("connecting");
		for (let s = rng.range(3, 20); s > 0; s--) {
			const how = p.mutate(rng);
			c.note(how);
			judge(how);
			t.evaluated();
			t.distinct(`${shape}/${renderer}/${how}/${p.truth()}`);
		}
		for (const el of p.els) el.remove();
		p.dispose?.();
	});

	// State that changes while an element is being rendered: children that talk
	// back as they are connected, views that correct the state they are given,
	// and subscribers of the user's that react to changes with more changes.
	await t.cases("reentrant", t.scale(70, 1500), (rng, i, c) => {
		const lib = ["redux", "mobx", "xstate"][i % 3];
		const renderer = rng.bool(0.65) ? "ignite-jsx" : "lit";
		const strategy = rng.pick(["diff", "diff", "replace"]);
		defineIgniteConfig({ renderer, strategy, logging: "off" } as never);
		type St = { n: number; mounted: number; rows: number };
		const reduce = (s: St, e: Any): St => {
			if (e.type === "inc") return { ...s, n: s.n + e.k };
			if (e.type === "mounted") return { ...s, mounted: Math.max(s.mounted, e.k) };
			if (e.type === "rows") return { ...s, rows: e.k };
			return s;
		};
		const init: St = { n: 0, mounted: 0, rows: rng.int(3) };
		let source: Any;
		let send: (e: Any) => void;
		let state: () => St;
		let subscribe: (f: () => void) => void;
		if (lib === "redux") {
			source = configureStore({ reducer: ((s: Any = init, a: Any) => reduce(s, a)) as never, middleware: ((g: Any) => g({ serializableCheck: false, immutableCheck: false })) as never });
			send = (e) => source.dispatch(e);
			state = () => source.getState();
			subscribe = (f) => void source.subscribe(f);
		} else if (lib === "mobx") {
			source = observable({ ...init, apply: action(function (this: Any, e: Any) {
				Object.assign(this, reduce({ n: this.n, mounted: this.mounted, rows: this.rows }, e));
			}) });
			send = (e) => source.apply(e);
			state = () => ({ n: source.n, mounted: source.mounted, rows: source.rows });
			subscribe = () => {};
		} else {
			source = createActor(createMachine({ context: init, on: { inc: { actions: assign((({ context, event }: Any) => reduce(context, event)) as never) as never }, mounted: { actions: assign((({ context, event }: Any) => reduce(context, event)) as never) as never }, rows: { actions: assign((({ context, event }: Any) => reduce(context, event)) as never) as never } } } as never) as never) as Any;
			source.start();
			send = (e) => source.send(e);
			state = () => source.getSnapshot().context;
			subscribe = (f) => void source.subscribe(f);
		}
		// Re-created on every render, a child that always speaks would never let the state settle.
		const childSays = strategy === "replace" && renderer !== "lit" ? rng.pick(["inc-once", "nothing"]) : rng.pick(["mounted", "inc-once", "nothing"]);
		const child = uniqueName("talker");
		const said = new Set<string>();
		customElements.define(
			child,
			class extends HTMLElement {
				connectedCallback() {
					const k = Number(this.getAttribute("k"));
					if (childSays === "mounted") this.dispatchEvent(new CustomEvent("ready", { detail: { type: "mounted", k }, bubbles: true }));
					if (childSays === "inc-once" && !said.has(String(k))) {
						said.add(String(k));
						this.dispatchEvent(new CustomEvent("ready", { detail: { type: "inc", k: 1 }, bubbles: true }));
					}
				}
			},
		);
		const clamp = rng.bool(0.4) ? rng.range(2, 5) : null;
		const userReacts = rng.bool(0.4);
		const early = rng.bool();
		if (userReacts && early) subscribe(() => state().n % 7 === 3 && send({ type: "inc", k: 1 }));
		const core = (lib === "redux" ? coreRedux : lib === "mobx" ? coreMobx : coreXState) as Any;
		const name = uniqueName("re");
		const view = ({ state: st }: Any) => {
			const s: St = lib === "xstate" ? st.context : st;
			if (clamp !== null && s.n > clamp) send({ type: "inc", k: -s.n });
			else if (s.n < 0) send({ type: "inc", k: 1 });
			const label = `${s.n}/${s.mounted}/${s.rows}`;
			const onReady = (e: Any) => send(e.detail);
			const rows = Array.from({ length: s.rows }, (_, k) => k + 1);
			if (renderer === "lit") {
				return html`<output>${label}</output><section @ready=${onReady}>${rows.map((k) => document.createElement("i") && html`<p>${k}</p>`)}${s.rows ? litChild(child, s.rows) : null}</section><footer>${label}</footer>`;
			}
			return jsxs("section", {
				onReady,
				children: [jsx("output", { children: label }), ...rows.map((k) => jsx("p", { children: k })), s.rows ? jsx(child, { k: s.rows }) : null, jsx("footer", { children: label })] as never,
			});
		};
		core({ source })(name, view);
		c.note({ lib, renderer, strategy, childSays, clamp, userReacts, early, init });
		const el = document.createElement(name);
		document.body.appendChild(el);
		if (userReacts && !early) subscribe(() => state().n % 7 === 3 && send({ type: "inc", k: 1 }));
		const judge = (after: string) => {
			const errors = drainReported();
			if (errors.length) violate(`[${lib}/${renderer}] after ${after}: ${String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 400)}`);
			const s = state();
			const want = `${s.n}/${s.mounted}/${s.rows}`;
			const got = Array.from(el.shadowRoot?.querySelectorAll("output,footer") ?? [], (x) => x.textContent);
			const rows = el.shadowRoot?.querySelectorAll("p").length;
			t.observe("screens-compared");
			if (got.length !== 2 || got[0] !== want || got[1] !== want || rows !== s.rows)
				violate(`[${lib}/${renderer}] after ${after}: element shows ${JSON.stringify(got)} with ${rows} row(s), source holds ${want}`, { html: el.shadowRoot?.innerHTML });
		};
		judge("connecting");
		for (let s = rng.range(2, 10); s > 0; s--) {
			// below zero the view itself counts up again, one render at a time
			const e = rng.pick([{ type: "inc", k: rng.bool(0.2) ? -rng.range(2, 45) : rng.range(1, 3) }, { type: "rows", k: rng.int(5) }]);
			c.note(e);
			send(e);
			judge(`${e.type} ${e.k}`);
			t.observe("reentrant-steps");
		}
		t.distinct(`re/${lib}/${renderer}/${childSays}/${clamp}/${userReacts}/${early}/${state().n}/${state().rows}`);
		el.remove();
		if (lib === "xstate") source.stop();
	});

	// Changes that arrive later: timers, promises, delayed transitions, invoked work.
	await t.cases("async", t.scale(8, 120), async (rng, i, c) => {
		const renderer = rng.bool() ? "ignite-jsx" : "lit";
		defineIgniteConfig({ renderer, strategy: "diff", logging: "off" } as never);
		const machine = createMachine({
			initial: "idle",
			context: { log: [] as string[] },
			states: {
				idle: { on: { GO: "wait" } },
				wait: { after: { 3: { target: "work", actions: assign({ log: ({ context }: Any) => [...context.log, "late"] }) as never } } },
				work: { invoke: { src: fromPromise(async () => "done"), onDone: { target: "end", actions: assign({ log: ({ context, event }: Any) => [...context.log, event.output] }) as never } } },
				end: { type: i % 2 ? "final" : undefined },
			},
		} as never);
		const actor = createActor(machine) as Any;
		actor.start();
		const nameX = uniqueName("later");
		(coreXState as Any)({ source: actor })(nameX, ({ state }: Any) => show(renderer, `${text(state.value)}|${text(state.context)}`));
		const store = observable({ n: 0, bump: action(function (this: Any) {
			this.n++;
		}) }) as Any;
		const nameM = uniqueName("later");
		(coreMobx as Any)({ source: store })(nameM, ({ state }: Any) => show(renderer, text(state.n)));
		const [x] = spawn(nameX, 1);
		const [m] = spawn(nameM, 1);
		setTimeout(() => store.bump(), rng.int(4));
		void Promise.resolve().then(() => store.bump());
		queueMicrotask(() => store.bump());
		actor.send({ type: "GO" });
		for (let k = 0; k < 60 && (actor.getSnapshot().value !== "end" || store.n < 3); k++) {
			await tick();
			const s = actor.getSnapshot();
			if (onScreen(x) !== `${text(s.value)}|${text(s.context)}`) violate(`[xstate/${renderer}] element shows ${onScreen(x)}, actor is in ${text(s.value)}|${text(s.context)}`);
			if (onScreen(m) !== text(store.n)) violate(`[mobx/${renderer}] element shows ${onScreen(m)}, store holds ${store.n}`);
			t.observe("screens-compared", 2);
			await new Promise((r) => setTimeout(r, 1));
		}
		c.note(onScreen(x));
		if (actor.getSnapshot().value === "end") t.observe("late-transitions");
		t.distinct(`async/${renderer}/${i % 2}`);
		x.remove();
		m.remove();
	});
});

const strings = new Map<string, TemplateStringsArray>();
/** <child k=...> as a lit template for a tag known only at run time. */
function litChild(tag: string, k: number): Any {
	let s = strings.get(tag);
	if (!s) {
		const parts = [`<${tag} k="`, `"></${tag}>`];
		s = Object.assign(parts, { raw: parts }) as unknown as TemplateStringsArray;
		strings.set(tag, s);
	}
	return html(s, k);
}
