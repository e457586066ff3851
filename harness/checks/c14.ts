// C14: a "send" event on a connected element reaches its source exactly once,
// whatever its history of connections; on a disconnected one it does nothing.
import { defineIgniteConfig, igniteElementFactory, StateScope } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import { igniteCore as coreMobx } from "@repo/src/mobx";
import { igniteCore as coreRedux } from "@repo/src/redux";
import "@repo/src/renderers/ignite-jsx";
import { igniteCore as coreXState } from "@repo/src/xstate";
import { configureStore } from "@reduxjs/toolkit";
import { action, observable, runInAction } from "mobx";
import { assign, createActor, createMachine } from "xstate";
import { drainReported, suite, uniqueName, violate, withConsole } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";

type Any = any;

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 200, thorough: 4000, kinds: KINDS, tags: ["effect", "isolation", "error"], weights: { send: 14, arg: 6, dead: 5, move: 3, disconnect: 3, connect: 6, command: 0.5, click: 1, direct: 0.5 }, start: 2 });

	// What exactly arrives: a recording adapter, events of every shape.
	await t.cases("payloads", t.scale(250, 5000), (rng, _i, c) => withConsole(() => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });
		const received: Array<{ adapter: number; e: unknown }> = [];
		const scope = rng.bool() ? StateScope.Shared : StateScope.Isolated;
		let made = 0;
		const factory = Object.assign(
			() => {
				const id = made++;
				return {
					scope,
					subscribe(l: (s: Any) => void) {
						l({ n: 1 });
						return { unsubscribe() {} };
					},
					send: (e: unknown) => void received.push({ adapter: id, e }),
					getState: () => ({ n: 1 }),
					stop() {},
				};
			},
			{ scope },
		);
		const name = uniqueName("sendto");
		let latestSend: (e: unknown) => void = () => {};
		const sends: Array<(e: unknown) => void> = [];
		const insert = (k: number, into: Element) => {
			into.appendChild(els[k]);
			sends[k] = latestSend;
		};
		igniteElementFactory(factory as never, { scope } as never)(name, ((a: Any) => jsxs("div", { children: [jsx("button", { id: "b", children: "x" }), jsx("i", { children: String(a.state.n) })] as never, "data-x": void (latestSend = a.send) })) as never);
		const els = Array.from({ length: rng.range(1, 3) }, () => {
			const el = document.createElement(name) as HTMLElement;
			el.innerHTML = "<span class=light></span>";
			return el;
		});
		// in the page, inside somebody else's shadow root, and in a part of the page that stops bubbling
		const box = [document.createElement("div"), document.createElement("div"), document.createElement("div")];
		const outer = document.body.appendChild(document.createElement("section"));
		document.body.append(box[0], box[2]);
		outer.attachShadow({ mode: rng.pick(["open", "closed"]) }).appendChild(box[1]);
		box[2].addEventListener("send", (e) => e.stopPropagation());
		const connected = els.map(() => false);
		const trace: string[] = [];
		for (let s = rng.range(5, 25); s > 0; s--) {
			const k = rng.int(els.length);
			const act = rng.weighted([[3, "toggle"], [1.5, "move"], [8, "send"]]);
			if (act === "toggle") {
				if (connected[k]) els[k].remove();
				else insert(k, rng.pick(box));
				connected[k] = !connected[k];
				trace.push(`${connected[k] ? "in" : "out"}${k}`);
				continue;
			}
			if (act === "move") {
				if (connected[k]) insert(k, rng.pick(box));
				trace.push(`move${k}`);
				continue;
			}
			const detail: unknown = rng.pick([{ type: "inc" }, { type: "set", v: [1, 2] }, "bare", 7, ["a"], Object.freeze({ type: "frozen" }), { type: "open", detail: { type: "inner" } }, { type: "x", detail: "d", target: els[k], bubbles: true }, Object.assign(Object.create(null), { type: "bare" }), new (class Done { type = "done"; detail = 1; })(), new Map([["type", "m"]])]);
			const from = rng.pick(["arg", "arg", "arg-event", "host", "host-bubbling", "light-child", "shadow-child", "document", "light-silent", "shadow-silent", "light-stopped", "shadow-stopped"]);
			const target = from.startsWith("light") ? els[k].querySelector(".light") : from.startsWith("shadow") ? els[k].shadowRoot?.querySelector("#b") : from === "document" ? box[0] : from.startsWith("arg") && !sends[k] ? null : els[k];
			const bubbles = from !== "host" && !from.endsWith("-silent");
			// A silent event from inside the shadow tree stays there only if it is not
			// composed: a composed one reaches the host as its retargeted target.
			const composed = from !== "shadow-silent" && (from.startsWith("shadow") || rng.bool());
			if (!target) continue;
			const stop = (e: Event) => e.stopPropagation();
			if (from.endsWith("-stopped")) target.addEventListener("send", stop);
			const before = received.length;
			if (from === "arg") sends[k](detail);
			else if (from === "arg-event") sends[k](new CustomEvent(rng.pick(["send", "item-added", "x"]), { detail, bubbles: rng.bool() }));
			else target.dispatchEvent(new CustomEvent("send", { detail, bubbles, composed }));
			target.removeEventListener("send", stop);
			const fresh = received.slice(before);
			trace.push(`send${k}:${from}`);
			t.observe("sends");
			const want = from !== "document" && !/-(silent|stopped)$/.test(from) && connected[k] ? 1 : 0;
			if (fresh.length !== want) violate(`an event sent by the ${from} of a ${connected[k] ? "connected" : "disconnected"} element reached its source ${fresh.length} time(s)`, { trace });
			if (want && fresh[0].e !== detail) violate(`the source received ${JSON.stringify(fresh[0].e)} instead of the event's detail ${JSON.stringify(detail)}`, { trace });
			if (want && scope === StateScope.Isolated) {
				const mine = fresh[0].adapter;
				const again = received.length;
				els[k].dispatchEvent(new CustomEvent("send", { detail }));
				if (received[again]?.adapter !== mine) violate("two events sent to one element reached different sources", { trace });
			}
		}
		c.note(trace);
		const errors = drainReported();
		if (errors.length) violate(String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300), { trace });
		t.distinct(trace.join());
		t.sample({ scope, trace: trace.slice(0, 15) });
		for (const el of els) el.remove();
		for (const b of [...box, outer]) b.remove();
	}));

	// Elements inside one another: an event that bubbles through several of them reaches
	// the source of each once, and the source of none it does not pass.
	await t.cases("nested", t.scale(120, 2500), (rng, _i, c) => withConsole(() => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: rng.pick(["diff", "replace"]), logging: "off" });
		const received: Array<{ level: number; e: unknown }> = [];
		const depth = rng.range(2, 4);
		const names: string[] = [];
		const listeners = new Set<(s: Any) => void>();
		let n = 0;
		// innermost first; each contains the one before it, in its shadow tree or as light content
		for (let level = 0; level < depth; level++) {
			const scope = rng.bool() ? StateScope.Shared : StateScope.Isolated;
			const factory = Object.assign(
				() => ({
					scope,
					subscribe(l: (s: Any) => void) {
						listeners.add(l);
						l({ n });
						return { unsubscribe: () => void listeners.delete(l) };
					},
					send: (e: unknown) => void received.push({ level, e }),
					getState: () => ({ n }),
					stop() {},
				}),
				{ scope },
			);
			const name = uniqueName(`level${level}`);
			const inner = names[level - 1];
			igniteElementFactory(factory as never, { scope } as never)(name, ((a: Any) => jsxs("div", { children: [jsx("i", { children: String(a.state.n) }), inner ? jsx(inner, {}) : jsx("b", {})] as never })) as never);
			names.push(name);
		}
		const top = document.body.appendChild(document.createElement(names[depth - 1])) as HTMLElement;
		const at = (level: number): HTMLElement => {
			let e = top;
			for (let k = depth - 2; k >= level; k--) e = e.shadowRoot?.querySelector(names[k]) as HTMLElement;
			return e;
		};
		const trace: string[] = [];
		for (let s = rng.range(4, 14); s > 0; s--) {
			const r = rng.f();
			if (r < 0.2) {
				document.body.appendChild(top);
				trace.push("move");
				continue;
			}
			if (r < 0.4) {
				n += 1;
				for (const l of [...listeners]) l({ n });
				trace.push("change");
				continue;
			}
			const level = rng.int(depth);
			const host = at(level);
			const from = rng.pick(["host", "inside"]);
			const target = from === "host" ? host : (host.shadowRoot?.querySelector("i") as Element);
			const bubbles = rng.bool(0.8);
			const composed = rng.bool(0.8);
			const detail = { type: `e${s}` };
			const before = received.length;
			target.dispatchEvent(new CustomEvent("send", { detail, bubbles, composed }));
			const got = received.slice(before);
			trace.push(`${from}${level}${bubbles ? " bubbling" : ""}${composed ? " composed" : ""}`);
			// The hosts on its way out: those it is retargeted to hear it even when it does not bubble.
			const passed = composed ? depth - level : from === "host" ? 1 : 0;
			t.observe("sends");
			for (let k = 0; k < depth; k++) {
				const want = k >= level && k < level + passed ? 1 : 0;
				const heard = got.filter((x) => x.level === k);
				if (heard.length !== want) violate(`an event from the ${from} of level ${level} of ${depth} (bubbles ${bubbles}, composed ${composed}) reached the source of level ${k} ${heard.length} time(s), expected ${want}`, { trace });
				if (want && heard[0].e !== detail) violate(`the source of level ${k} received something else than the detail`, { trace });
			}
		}
		c.note(trace);
		const errors = drainReported();
		if (errors.length) violate(String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300), { trace });
		t.distinct(`nested/${depth}/${trace.join()}`);
		top.remove();
	}));

	// Events sent while a view is being rendered - by the view itself, by something it
	// contains as that connects - arrive once and before what is sent afterwards.
	await t.cases("while-rendering", t.scale(120, 2500), (rng, _i, c) => withConsole(() => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: rng.pick(["diff", "replace"]), logging: "off" });
		const received: unknown[] = [];
		const listeners = new Set<(s: Any) => void>();
		let state = { n: 0 };
		const scope = rng.bool() ? StateScope.Shared : StateScope.Isolated;
		const factory = Object.assign(
			() => ({
				scope,
				subscribe(l: (s: Any) => void) {
					listeners.add(l);
					l(state);
					return { unsubscribe: () => void listeners.delete(l) };
				},
				send: (e: unknown) => void received.push(e),
				getState: () => state,
				stop() {},
			}),
			{ scope },
		);
		let serial = 0;
		const sent: unknown[] = [];
		const fire = (how: (e: unknown) => void) => {
			const e = { type: `e${serial++}` };
			sent.push(e);
			how(e);
		};
		const speaker = uniqueName("speaker");
		customElements.define(speaker, class extends HTMLElement {
			connectedCallback() {
				// (A reaction can be run after a later render has already taken the node out again.)
				for (let k = Number(this.getAttribute("times")); k > 0 && this.isConnected; k--) fire((e) => this.dispatchEvent(new CustomEvent("send", { detail: e, bubbles: true, composed: true })));
			}
		});
		const name = uniqueName("talks");
		igniteElementFactory(factory as never, { scope } as never)(name, ((a: Any) => {
			if (a.state.n % 3 === 1) fire((e) => a.send(e));
			return jsxs("div", { children: [a.state.n % 2 ? jsx(speaker, { times: a.state.n % 4 }) : "none", jsx("b", { children: String(a.state.n) })] as never });
		}) as never);
		const els = Array.from({ length: rng.range(1, 2) }, () => document.body.appendChild(document.createElement(name)) as HTMLElement);
		const trace: string[] = [];
		for (let s = rng.range(4, 16); s > 0; s--) {
			const what = rng.pick(["change", "change", "send", "reinsert", "both"]);
			trace.push(what);
			const el = rng.pick(els);
			if (what === "change" || what === "both") {
				state = { n: state.n + rng.range(1, 3) };
				for (const l of [...listeners]) l(state);
			}
			if (what === "reinsert") document.body.appendChild(el);
			if (what === "send" || what === "both") fire((e) => el.dispatchEvent(new CustomEvent("send", { detail: e })));
			t.observe("sends");
			if (received.length !== sent.length || received.some((e, k) => e !== sent[k])) violate(`events sent while rendering arrived as ${JSON.stringify(received)}, sent were ${JSON.stringify(sent)}`, { trace });
		}
		c.note(trace);
		const errors = drainReported();
		if (errors.length) violate(String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300), { trace });
		t.distinct(`rendering/${trace.join()}/${serial}`);
		for (const el of els) el.remove();
	}));

	// What the libraries themselves receive: the very event, or the very arguments, whatever they are.
	await t.cases("real-sources", t.scale(160, 3000), (rng, i, c) => withConsole(() => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });
		const lib = ["redux-store", "redux-factory", "mobx-store", "mobx-factory", "xstate-actor", "xstate-machine"][i % 6];
		const got: unknown[] = [];
		const args: unknown[][] = [];
		const wrapped = rng.bool(); // MobX's action() hides how many parameters a function has
		let core: Any;
		let source: Any;
		if (lib.startsWith("redux")) {
			core = coreRedux;
			const make = () => configureStore({ reducer: ((s: Any = { n: 0 }) => ({ n: s.n + 1 })) as never, middleware: (() => [() => (next: Any) => (a: Any) => (got.push(a), typeof a === "function" ? a(next) : next(a))]) as never });
			source = lib === "redux-store" ? make() : make;
		} else if (lib.startsWith("mobx")) {
			core = coreMobx;
			const bump = (s: Any) => runInAction(() => s.n++);
			const make = () => {
				const s = observable({ n: 0 }) as Any;
				// actions of every arity, as own methods of the store
				for (const [name, f] of Object.entries({
					none: function (this: Any) { args.push([...arguments]); bump(this); },
					one: function (this: Any, _a: Any) { args.push([...arguments]); bump(this); },
					opt: function (this: Any, _a?: Any, _b = 2) { args.push([...arguments]); bump(this); },
					rest: function (this: Any, ...all: Any[]) { args.push(all); bump(this); },
				})) Object.defineProperty(s, name, { value: wrapped ? action(f) : f, enumerable: false });
				return s;
			};
			source = lib === "mobx-store" ? make() : make;
		} else {
			core = coreXState;
			const machine = createMachine({ context: { n: 0 }, on: { "*": { actions: [(({ event }: Any) => void got.push(event)) as never, assign({ n: ({ context }: Any) => context.n + 1 }) as never] } } } as never);
			source = machine;
			if (lib === "xstate-actor") (source = createActor(machine) as Any).start();
		}
		const name = uniqueName("real");
		let send: (e: unknown) => void = () => {};
		core({ source })(name, (a: Any) => {
			send = a.send;
			return jsx("b", { children: String(a.state.n ?? a.state.context?.n) });
		});
		const el = document.body.appendChild(document.createElement(name)) as HTMLElement;
		got.length = 0;
		const big = { deep: { list: [1, { x: null }] } };
		let earlier: [Any, unknown[] | undefined] | null = null;
		const trace: string[] = [];
		for (let s = rng.range(3, 14); s > 0; s--) {
			if (rng.bool(0.15)) document.body.appendChild(el);
			got.length = 0;
			args.length = 0;
			let event: Any;
			let wantArgs: unknown[] | undefined;
			if (lib.startsWith("mobx")) {
				const type = rng.pick(["none", "one", "opt", "rest"]);
				const given = rng.pick<unknown[] | undefined>([undefined, [], [undefined], [null], [0], [big], [1, "two", big], [big, false, "", NaN], Array.from({ length: 12 }, (_, k) => k)]);
				event = given ? { type, args: given } : { type };
				// without a list of arguments an action that expects some is given the event itself
				wantArgs = given ?? (!wrapped && (type === "one" || type === "opt") ? [event] : []);
			} else {
				event = rng.pick<() => unknown>([
					() => ({ type: "up", payload: big }),
					() => Object.freeze({ type: "up", payload: undefined, meta: { at: 1 }, error: true }),
					() => ({ type: "a/b/c", payload: [1, [2]] }),
					() => ({ type: "", payload: 0 }),
					() => ({ type: "x.y.z", nested: { type: "inner" } }),
					() => Object.assign({ type: "sym" }, { [Symbol.for("extra")]: 1 }),
					...(lib.startsWith("redux") ? [() => (next: Any) => next({ type: "from a thunk" }), () => Object.assign((next: Any) => next({ type: "inner" }), { type: "thunk" })] : []),
				])();
			}
			// the very same event may be sent again and again
			if (earlier && rng.bool(0.3)) [event, wantArgs] = earlier;
			earlier = [event, wantArgs];
			const route = rng.pick(["arg", "dom", "child"]);
			trace.push(`${route}:${typeof event === "function" ? "function" : event.type}`);
			if (route === "arg") send(event);
			else (route === "dom" ? el : (el.shadowRoot?.querySelector("b") as Element)).dispatchEvent(new CustomEvent("send", { detail: event, bubbles: true, composed: true }));
			t.observe("sends");
			const errors = drainReported();
			if (errors.length) violate(`[${lib}] ${trace.at(-1)}: ${String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300)}`);
			if (wantArgs) {
				const same = args.length === 1 && args[0].length === wantArgs.length && args[0].every((x, k) => Object.is(x, (wantArgs as unknown[])[k]));
				if (!same) violate(`[${lib}] the action for ${JSON.stringify(event)} ran with ${JSON.stringify(args)}, sent were the arguments ${JSON.stringify(wantArgs)}`);
			} else if (got.length !== 1 || got[0] !== event) violate(`[${lib}] ${trace.at(-1)} reached the source ${got.length} time(s), ${got.length && got[0] !== event ? "as another object" : ""}`, { event, got });
		}
		c.note(trace);
		t.distinct(`real/${lib}/${trace.join()}`);
		el.remove();
		if (lib === "xstate-actor") source.stop();
	}));
});
