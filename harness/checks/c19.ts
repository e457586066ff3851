// C19: the general entry point behaves exactly like the library-specific ones for
// every supported source, and refuses everything else before registering anything.
import { defineIgniteConfig } from "@repo/src/index";
import { igniteCore } from "@repo/src/IgniteCore";
import { jsx } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { configureStore, createSlice, legacy_createStore } from "@reduxjs/toolkit";
import { html } from "lit-html";
import { makeAutoObservable, makeObservable, observable } from "mobx";
import { createActor, createMachine, setup } from "xstate";
import { drainReported, suite, uniqueName, violate, withConsole } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";

type Any = any;

class Annotated {
	n = 0;
	constructor() {
		makeObservable(this, { n: observable });
	}
}
class Sub extends Annotated {
	extra = 1;
}
class Auto {
	n = 0;
	get double() {
		return this.n * 2;
	}
	constructor() {
		makeAutoObservable(this);
	}
	bump() {
		this.n++;
	}
}
const machine = () => createMachine({ context: { n: 0 }, on: { UP: { actions: ({ context }: Any) => void context } } } as never);
const setupMachine = () => setup({ types: {} as Any }).createMachine({ context: { n: 0 }, initial: "a", states: { a: {} } } as never);
const slice = () => createSlice({ name: "s", initialState: { n: 0 }, reducers: { up: (s) => void s.n++ } });
const store = () => configureStore({ reducer: { s: slice().reducer } });
const plainStore = () => configureStore({ reducer: (s: Any = { n: 0 }) => s });

/** [source builder, whether elements share it, how to read n] */
const GOOD: Record<string, { lib: string; make: () => Any; shared: boolean; n: (s: Any) => number }> = {
	machine: { lib: "xstate", make: machine, shared: false, n: (s) => s.context.n },
	"setup machine": { lib: "xstate", make: setupMachine, shared: false, n: (s) => s.context.n },
	"machine with provided implementations": { lib: "xstate", make: () => (machine() as Any).provide({}), shared: false, n: (s) => s.context.n },
	"running actor": { lib: "xstate", make: () => createActor(machine()).start(), shared: true, n: (s) => s.context.n },
	"idle actor": { lib: "xstate", make: () => createActor(setupMachine()), shared: true, n: (s) => s.context.n },
	"store": { lib: "redux", make: store, shared: true, n: (s) => s.s.n },
	"single-reducer store": { lib: "redux", make: plainStore, shared: true, n: (s) => s.n },
	"plain Redux store": { lib: "redux", make: () => legacy_createStore((s: Any = { n: 0 }) => s), shared: true, n: (s) => s.n },
	"wrapped store": {
		lib: "redux",
		make: () => {
			const inner = plainStore();
			return { getState: () => inner.getState(), dispatch: (a: Any) => inner.dispatch(a), subscribe: (l: () => void) => inner.subscribe(l) };
		},
		shared: true,
		n: (s) => s.n,
	},
	"store class instance": {
		lib: "redux",
		make: () =>
			new (class MyStore {
				#inner = plainStore();
				getState() {
					return this.#inner.getState();
				}
				dispatch(a: Any) {
					return this.#inner.dispatch(a);
				}
				subscribe(l: () => void) {
					return this.#inner.subscribe(l);
				}
			})(),
		shared: true,
		n: (s) => s.n,
	},
	"factory of a plain Redux store": { lib: "redux", make: () => () => legacy_createStore((s: Any = { n: 0 }) => s), shared: false, n: (s) => s.n },
	"slice": { lib: "redux", make: slice, shared: false, n: (s) => s.s.n },
	"slice without reducers of its own": { lib: "redux", make: () => createSlice({ name: "s", initialState: { n: 0 }, reducers: {}, extraReducers: (b) => void b.addCase("up", (s: Any) => void s.n++) }), shared: false, n: (s) => s.s.n },
	"store factory with parameters": { lib: "redux", make: () => (_preloaded?: unknown) => store(), shared: false, n: (s) => s.s.n },
	"bound store factory": { lib: "redux", make: () => store.bind(null), shared: false, n: (s) => s.s.n },
	"instance factory with parameters": { lib: "mobx", make: () => (_start?: number) => new Auto(), shared: false, n: (s) => s.n },
	"store factory": { lib: "redux", make: () => store, shared: false, n: (s) => s.s.n },
	"function expression store factory": { lib: "redux", make: () => function makeStore() { return store(); }, shared: false, n: (s) => s.s.n },
	"observable object": { lib: "mobx", make: () => observable({ n: 0 }), shared: true, n: (s) => s.n },
	"annotated instance": { lib: "mobx", make: () => new Annotated(), shared: true, n: (s) => s.n },
	"subclass instance": { lib: "mobx", make: () => new Sub(), shared: true, n: (s) => s.n },
	"auto-observable instance": { lib: "mobx", make: () => new Auto(), shared: true, n: (s) => s.n },
	"observable map": { lib: "mobx", make: () => observable.map({ n: 0 }), shared: true, n: (s) => s.get("n") },
	"observable array": { lib: "mobx", make: () => observable.array([0]), shared: true, n: (s) => s[0] },
	"shallow observable": { lib: "mobx", make: () => observable({ n: 0 }, {}, { deep: false }), shared: true, n: (s) => s.n },
	"non-proxied observable": { lib: "mobx", make: () => observable({ n: 0 }, {}, { proxy: false }), shared: true, n: (s) => s.n },
	"observable factory": { lib: "mobx", make: () => () => observable({ n: 0 }), shared: false, n: (s) => s.n },
	"instance factory": { lib: "mobx", make: () => () => new Auto(), shared: false, n: (s) => s.n },
};
const BAD: Record<string, () => Any> = {
	null: () => null,
	undefined: () => undefined,
	number: () => 7,
	string: () => "store",
	boolean: () => true,
	symbol: () => Symbol("x"),
	"plain object": () => ({ n: 0 }),
	array: () => [1, 2],
	date: () => new Date(),
	map: () => new Map(),
	promise: () => Promise.resolve(store()),
	"half a store": () => ({ getState() {}, dispatch() {} }),
	"half an actor": () => ({ send() {}, subscribe() {} }),
	"half a slice": () => ({ name: "s", reducer() {} }),
	"half a machine": () => ({ transition() {} }),
	"factory of nothing": () => () => undefined,
	"factory of a plain object": () => () => ({ n: 0 }),
	"factory of a promise": () => async () => store(),
	"factory that throws": () => () => {
		throw new Error("factory failed");
	},
	"class, not an instance": () => Auto,
	"DOM node": () => document.createElement("div"),
};

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 240, thorough: 4000, kinds: KINDS, tags: ["view", "facade", "effect", "isolation", "consistency", "inert", "subs", "owner", "error", "context"], vary: (rng) => ({ entry: rng.pick(["inferred", "named"] as const) }) });

	await t.cases("sources", t.scale(120, 1500), (rng, i, c) => {
		const name = Object.keys(GOOD)[i % Object.keys(GOOD).length];
		const g = GOOD[name];
		const entry = rng.pick(["inferred", "named"]);
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		c.note({ name, entry, renderer });
		const seen: Any[] = [];
		const source = g.make();
		const keys = typeof source === "object" ? JSON.stringify(Object.keys(source)) : "";
		const register = (igniteCore as Any)({ source, ...(entry === "named" ? { adapter: g.lib } : {}) });
		const tag = uniqueName("any");
		register(tag, ({ state }: Any) => {
			seen.push(state);
			return renderer === "lit" ? html`<b>${g.n(state)}</b>` : jsx("b", { children: String(g.n(state)) });
		});
		const els = [0, 1].map(() => document.body.appendChild(document.createElement(tag)) as HTMLElement);
		for (const e of drainReported()) violate(`[${name}/${entry}] ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
		for (const el of els) if (el.shadowRoot?.querySelector("b")?.textContent !== "0") violate(`[${name}/${entry}] an element shows ${el.shadowRoot?.innerHTML}`);
		t.observe("sources-accepted");
		if (typeof source === "object" && JSON.stringify(Object.keys(source)) !== keys) violate(`[${name}] the user's source was altered`);
		t.distinct(`${name}/${entry}/${renderer}`);
		for (const el of els) el.remove();
	});

	await t.cases("refused", t.scale(120, 1200), (rng, i, c) => {
		const name = Object.keys(BAD)[i % Object.keys(BAD).length];
		c.note(name);
		const source = BAD[name]();
		let error: unknown;
		withConsole(() => {
			try {
				(igniteCore as Any)({ source });
			} catch (e) {
				error = e;
			}
		});
		t.observe("sources-refused");
		if (!(error instanceof Error)) violate(`a source that is ${name} was not refused (${String(error)})`);
		if (name === "factory that throws" && !String(error).includes("factory failed")) violate(`the failure of a source factory was hidden behind: ${String(error)}`);
		// and a library that does not exist is refused for good sources too
		const g = rng.pick(Object.values(GOOD));
		const lib = rng.pick(["zustand", "XState", "Redux", "none", "constructor"]);
		let error2: unknown;
		try {
			(igniteCore as Any)({ source: g.make(), adapter: lib });
		} catch (e) {
			error2 = e;
		}
		if (!(error2 instanceof Error)) violate(`the unknown adapter "${lib}" was not refused`);
		t.distinct(`${name}/${lib}`);
	});

	await t.cases("static", t.scale(40, 300), (rng, _i, c) => {
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		const tags = [uniqueName("still"), uniqueName("still")];
		const register = (igniteCore as Any)();
		for (const tag of tags) register(tag, ({ state, send }: Any) => {
			if (typeof send !== "function" || JSON.stringify(state) !== "{}") violate("a static component received a state");
			return renderer === "lit" ? html`<b>${tag}</b>` : jsx("b", { children: tag });
		});
		const els = Array.from({ length: rng.range(1, 4) }, () => document.createElement(rng.pick(tags)) as HTMLElement);
		const trace: string[] = [];
		for (let s = rng.range(2, 12); s > 0; s--) {
			const el = rng.pick(els);
			const what = rng.pick(["in", "in", "out", "send", "force"]);
			trace.push(what);
			if (what === "in") document.body.appendChild(el);
			else if (what === "out") el.remove();
			else if (what === "send") withConsole(() => el.dispatchEvent(new CustomEvent("send", { detail: { type: "X" } })));
			else withConsole(() => (el as Any).forceRender());
			for (const e of drainReported()) violate(`static component after ${trace}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const e of els) if (e.isConnected && e.shadowRoot?.querySelector("b")?.textContent !== e.localName) violate(`a static component shows ${e.shadowRoot?.innerHTML}`);
			t.observe("static-screens", els.length);
		}
		c.note(trace);
		t.distinct(`static/${renderer}/${trace.join()}`);
		for (const el of els) el.remove();
	});
});
