// State sources of every supported kind behind one interface, with an executable
// model of the state they hold and monitors on the real libraries' own API
// (who is subscribed, who was stopped). The code under test only ever sees the
// real XState / Redux / MobX objects.
import { igniteCore as coreAny } from "@repo/src/IgniteCore";
import { igniteCore as coreMobx } from "@repo/src/mobx";
import { igniteCore as coreRedux } from "@repo/src/redux";
import { igniteCore as coreXState } from "@repo/src/xstate";
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { action, makeAutoObservable, observable, observe, onBecomeObserved, onBecomeUnobserved, runInAction } from "mobx";
import { assign, createActor, createMachine, fromCallback } from "xstate";
import type { Rng } from "./core";

// ------------------------------------------------------------------- model
export type Model = { n: number; items: string[]; label: string; deep: { on: boolean; list: Array<{ id: number; ok: boolean }> } };
export const initialModel = (): Model => ({ n: 0, items: [], label: "start", deep: { on: false, list: [] } });
export type Op =
	| { op: "add"; k: number }
	| { op: "push"; s: string }
	| { op: "pop" }
	| { op: "label"; s: string }
	| { op: "toggle" }
	| { op: "item"; id: number }
	| { op: "flip"; id: number }
	| { op: "reset" }
	| { op: "nop" };

export function applyOp(m: Model, o: Op): Model {
	switch (o.op) {
		case "add":
			return { ...m, n: m.n + o.k };
		case "push":
			return { ...m, items: [...m.items, o.s] };
		case "pop":
			return { ...m, items: m.items.slice(0, -1) };
		case "label":
			return { ...m, label: o.s };
		case "toggle":
			return { ...m, deep: { ...m.deep, on: !m.deep.on } };
		case "item":
			return { ...m, deep: { ...m.deep, list: [...m.deep.list, { id: o.id, ok: false }] } };
		case "flip":
			return { ...m, deep: { ...m.deep, list: m.deep.list.map((x) => (x.id === o.id ? { ...x, ok: !x.ok } : x)) } };
		case "reset":
			return initialModel();
		case "nop":
			return m;
	}
}
let serial = 0;
export function genOp(rng: Rng, m?: Model): Op {
	return rng.weighted<() => Op>([
		[6, () => ({ op: "add", k: rng.pick([1, 1, 2, -1, 0, 10]) })],
		[3, () => ({ op: "push", s: `i${serial++}` })],
		[1, () => ({ op: "pop" })],
		[2, () => ({ op: "label", s: rng.pick(["", "start", "x", "ünï", `l${serial++}`]) })],
		[1.5, () => ({ op: "toggle" })],
		[2, () => ({ op: "item", id: serial++ })],
		[1.5, () => ({ op: "flip", id: m?.deep.list.length ? rng.pick(m.deep.list).id : -1 })],
		[0.7, () => ({ op: "reset" })],
		[0.7, () => ({ op: "nop" })],
	])();
}

/** Canonical text of a model: what the test views print. */
export const show = (m: Model): string => JSON.stringify([m.n, m.items, m.label, m.deep.on, m.deep.list.map((x) => [x.id, x.ok])]);

// ------------------------------------------------------------------ sources
export type Kind = "xstate-machine" | "xstate-actor" | "redux-slice" | "redux-factory" | "redux-store" | "mobx-store" | "mobx-factory" | "mobx-class";
export const SHARED_KINDS: Kind[] = ["xstate-actor", "redux-store", "mobx-store", "mobx-class"];
export const ISOLATED_KINDS: Kind[] = ["xstate-machine", "redux-slice", "redux-factory", "mobx-factory"];
export const KINDS: Kind[] = [...SHARED_KINDS, ...ISOLATED_KINDS];

/** What the monitor on one real source instance sees. */
export type Watch = { active: number; totalSubs: number; stops: number; started: number; mutate?: (o: Op) => void; current: () => Model };

export type World = {
	kind: Kind;
	shared: boolean;
	source: unknown;
	core: (options: Record<string, unknown>) => (name: string, renderer: unknown) => void;
	/** The event object a user sends for an op. */
	event: (o: Op) => unknown;
	/** Several events that together amount to one op list, if the kind supports batching. */
	batch?: (ops: Op[]) => void;
	/** Run several operations as one change, if the library has such a thing. */
	together?: (f: () => void) => void;
	/** Model out of the state render functions receive. */
	read: (state: unknown) => Model;
	/** Model out of the snapshot `states` callbacks receive. */
	readSnapshot: (snapshot: unknown) => Model;
	/** Apply an op through a command actor. */
	viaActor: (actor: unknown, o: Op) => void;
	/** Model as a command reads it from the actor it was given. */
	readActor: (actor: unknown) => Model;
	/** Mutate the user's own source behind Ignite's back (shared kinds). */
	direct?: (o: Op) => void;
	/** Listen to the user's own source without being counted (shared kinds). */
	onChange?: (l: () => void) => () => void;
	/** Monitors, one per real source instance (index 0 is the user's for shared kinds). */
	watches: Watch[];
	/** True state of one private source, through the actor its commands received or its watch (isolated kinds). */
	truthOf: (actor: unknown, watch: Watch | undefined) => Model;
	/** True state of the user's source (shared kinds). */
	truth?: () => Model;
	dispose: () => void;
};

/** A context field that shares its name with one of the snapshot's own. */
const OWN_STATUS = "ours";
function xstateMachine(watches: Watch[], perInstance: boolean) {
	// `self` identifies the actor: one watch per actor Ignite starts, fed by the
	// machine's own actions, so its true context is known without asking Ignite.
	const bySelf = new WeakMap<object, Watch & { ctx: Model }>();
	const seen = (self: object): Watch & { ctx: Model } => {
		let w = bySelf.get(self);
		if (!w) {
			const fresh: Watch & { ctx: Model } = { active: 0, totalSubs: 0, stops: 0, started: 0, ctx: initialModel(), current: () => fresh.ctx };
			w = fresh;
			bySelf.set(self, w);
			if (perInstance) watches.push(w);
		}
		return w;
	};
	return createMachine({
		id: "m",
		initial: "idle",
		context: ({ self }: { self: object }) => {
			seen(self);
			return { ...initialModel(), status: OWN_STATUS };
		},
		invoke: {
			src: fromCallback(({ self }: { self: { _parent?: object } }) => {
				const w = seen(self._parent as object);
				w.started += 1;
				return () => {
					w.stops += 1;
				};
			}),
		},
		states: { idle: { on: { GO: "busy" } }, busy: { on: { GO: "idle" } } },
		on: {
			OP: {
				actions: assign((({ context, event, self }: { context: Model; event: { o: Op }; self: object }) => {
					const next = applyOp(context, event.o);
					seen(self).ctx = next;
					return next;
				}) as never) as never,
			},
		},
	} as never);
}

function makeSlice(name: string) {
	return createSlice({
		name,
		initialState: initialModel(),
		reducers: {
			run: (s, a: { payload: Op }) => applyOp(s as Model, a.payload),
		},
	});
}

class MobxStore implements Model {
	n = 0;
	items: string[] = [];
	label = "start";
	deep: Model["deep"] = { on: false, list: [] };
	constructor() {
		makeAutoObservable(this);
	}
	run(o: Op) {
		mutateMobx(this, o);
	}
}
function mutateMobx(s: Model, o: Op): void {
	switch (o.op) {
		case "add":
			s.n += o.k;
			break;
		case "push":
			s.items.push(o.s);
			break;
		case "pop":
			s.items.pop();
			break;
		case "label":
			s.label = o.s;
			break;
		case "toggle":
			s.deep.on = !s.deep.on;
			break;
		case "item":
			s.deep.list.push({ id: o.id, ok: false });
			break;
		case "flip": {
			for (const f of s.deep.list) if (f.id === o.id) f.ok = !f.ok;
			break;
		}
		case "reset":
			Object.assign(s, initialModel());
			break;
	}
}
function mobxPlain() {
	return observable({
		...initialModel(),
		run: action(function (this: Model, o: Op) {
			mutateMobx(this, o);
		}),
	});
}
const plain = (s: Model): Model => ({
	n: s.n,
	items: Array.from(s.items),
	label: s.label,
	deep: { on: s.deep.on, list: Array.from(s.deep.list, (x) => ({ id: x.id, ok: x.ok })) },
});
function watchMobx(store: Model, watches: Watch[]): Watch {
	const w: Watch = { active: 0, totalSubs: 0, stops: 0, started: 1, current: () => plain(store) };
	onBecomeObserved(store, "n", () => {
		w.active += 1;
		w.totalSubs += 1;
	});
	onBecomeUnobserved(store, "n", () => {
		w.active -= 1;
	});
	watches.push(w);
	return w;
}
function watchRedux<S extends { subscribe: (l: () => void) => () => void; getState: () => unknown }>(store: S, read: (s: unknown) => Model, watches: Watch[]): Watch {
	const w: Watch = { active: 0, totalSubs: 0, stops: 0, started: 1, current: () => read(store.getState()) };
	const real = store.subscribe.bind(store);
	store.subscribe = ((l: () => void) => {
		w.active += 1;
		w.totalSubs += 1;
		const un = real(l);
		let done = false;
		return () => {
			if (!done) {
				done = true;
				w.active -= 1;
			}
			un();
		};
	}) as never;
	watches.push(w);
	return w;
}
function watchActor(actor: ReturnType<typeof createActor>, watches: Watch[]): Watch {
	const w: Watch = { active: 0, totalSubs: 0, stops: 0, started: 0, current: () => (actor.getSnapshot() as unknown as { context: Model }).context };
	const a = actor as unknown as Record<string, (...x: unknown[]) => unknown>;
	const realSub = a.subscribe.bind(actor);
	a.subscribe = (...args) => {
		w.active += 1;
		w.totalSubs += 1;
		const s = realSub(...args) as { unsubscribe: () => void };
		let done = false;
		return {
			unsubscribe() {
				if (!done) {
					done = true;
					w.active -= 1;
				}
				s.unsubscribe();
			},
		};
	};
	const realStop = a.stop.bind(actor);
	a.stop = (...args) => {
		w.stops += 1;
		return realStop(...args);
	};
	const realStart = a.start.bind(actor);
	a.start = (...args) => {
		w.started += 1;
		return realStart(...args);
	};
	watches.push(w);
	return w;
}

/** A store function, in turn without and with (optional) parameters. */
let declarations = 0;
const declared = (make: () => object): ((...x: never[]) => object) => (declarations++ % 2 ? (_preloaded?: unknown, _extra?: unknown) => make() : () => make());

const cores = { xstate: coreXState, redux: coreRedux, mobx: coreMobx } as unknown as Record<string, World["core"]>;
const quiet = { middleware: (g: (o: unknown) => unknown) => g({ serializableCheck: false, immutableCheck: false }) as never };

/** How the component is defined: the library's own entry point, or the general one with or without naming the library. */
export type Entry = "own" | "inferred" | "named";

export function makeWorld(kind: Kind, options: { prestarted?: boolean; entry?: Entry } = {}): World {
	const library = kind.split("-")[0];
	const any = coreAny as unknown as World["core"];
	const via = (core: World["core"]): World["core"] =>
		options.entry === "inferred" ? any : options.entry === "named" ? (o) => any({ ...o, adapter: library }) : core;
	const watches: Watch[] = [];
	const noop = () => {};
	if (kind === "xstate-machine" || kind === "xstate-actor") {
		const isActor = kind === "xstate-actor";
		const machine = xstateMachine(watches, !isActor);
		const base = {
			kind,
			shared: isActor,
			core: via(cores.xstate),
			event: (o: Op) => ({ type: "OP", o }),
			// what the view is given: the context under `context` and its fields beside the snapshot's
			read: (s: unknown) => {
				const { n, items, label, deep, status, context } = s as Model & { context: Model; status: unknown };
				const flat = { n, items, label, deep };
				return status === OWN_STATUS && show(flat) === show(context) ? context : { ...flat, label: `fields beside the context differ from it (${String(status)}, ${show(flat)}, ${show(context)})` };
			},
			readSnapshot: (s: unknown) => (s as { context: Model }).context,
			viaActor: (a: unknown, o: Op) => (a as { send: (e: unknown) => void }).send({ type: "OP", o }),
			readActor: (a: unknown) => (a as { state: { context: Model } }).state.context,
			truthOf: (_a: unknown, w: Watch | undefined) => (w as Watch).current(),
			watches,
		};
		if (!isActor) return { ...base, source: machine, dispose: noop };
		const actor = createActor(machine as never);
		if (options.prestarted !== false) actor.start();
		const quietly = actor.subscribe.bind(actor);
		const w = watchActor(actor as never, watches);
		return {
			...base,
			onChange: (l) => {
				const s = quietly(l as never);
				return () => s.unsubscribe();
			},
			source: actor,
			direct: (o) => (actor as unknown as { send: (e: unknown) => void }).send({ type: "OP", o }),
			truth: () => w.current(),
			dispose: () => void (actor as unknown as { _parent?: unknown; stop: () => void }).stop(),
		};
	}
	if (kind.startsWith("redux")) {
		const name = "box";
		const slice = makeSlice(name);
		const read = (s: unknown) => (s as Record<string, Model>)[name];
		const base = {
			kind,
			core: via(cores.redux),
			event: (o: Op) => slice.actions.run(o),
			read,
			readSnapshot: read,
			readActor: (a: unknown) => read((a as { getState: () => unknown }).getState()),
			truthOf: (a: unknown) => read((a as { getState: () => unknown }).getState()),
			viaActor: (a: unknown, o: Op) => void (a as { dispatch: (e: unknown) => void }).dispatch(slice.actions.run(o)),
			watches,
			dispose: noop,
		};
		if (kind === "redux-slice") return { ...base, shared: false, source: slice };
		const build = () => {
			const store = configureStore({ reducer: { [name]: slice.reducer }, ...quiet } as never);
			quietly = store.subscribe.bind(store);
			watchRedux(store as never, read, watches);
			return store;
		};
		let quietly: (l: () => void) => () => void;
		if (kind === "redux-factory") return { ...base, shared: false, source: declared(build) };
		const store = build();
		return {
			...base,
			shared: true,
			source: store,
			onChange: (l) => quietly(l),
			direct: (o) => void store.dispatch(slice.actions.run(o) as never),
			truth: () => read(store.getState()),
		};
	}
	const base = {
		kind,
		core: via(cores.mobx),
		event: (o: Op) => ({ type: "run", args: [o] }),
		read: (s: unknown) => s as Model,
		readSnapshot: (s: unknown) => s as Model,
		readActor: (a: unknown) => plain(a as Model),
		truthOf: (a: unknown) => plain(a as Model),
		viaActor: (a: unknown, o: Op) => (a as { run: (o: Op) => void }).run(o),
		together: (f: () => void) => runInAction(f),
		watches,
		dispose: noop,
	};
	if (kind === "mobx-factory") {
		return {
			...base,
			shared: false,
			source: declared(() => {
				const s = mobxPlain();
				watchMobx(s as never, watches);
				return s;
			}),
		};
	}
	const store = (kind === "mobx-class" ? new MobxStore() : mobxPlain()) as Model & { run: (o: Op) => void };
	watchMobx(store, watches);
	return {
		...base,
		shared: true,
		source: store,
		onChange: (l) => observe(store, l),
		direct: (o) => store.run(o),
		batch: (ops) =>
			runInAction(() => {
				for (const o of ops) store.run(o);
			}),
		truth: () => plain(store),
	};
}
