// C06: elements created from a blueprint own their state; nothing done to one
// of them is visible in another.
import { igniteCore as coreMobx } from "@repo/src/mobx";
import { igniteCore as coreRedux } from "@repo/src/redux";
import { igniteCore as coreXState } from "@repo/src/xstate";
import { defineIgniteConfig } from "@repo/src/index";
import { jsx } from "@repo/src/jsx/jsx-runtime";
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { observable } from "mobx";
import { assign, createMachine } from "xstate";
import { drainReported, suite, uniqueName, violate } from "../lib/core";
import { fleetCases, ISOLATED_KINDS } from "../lib/fleetcheck";

type Any = any;

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 300, thorough: 6000, kinds: ISOLATED_KINDS, tags: ["isolation", "effect", "error"], start: 2, weights: { create: 3, html: 2, connect: 5, direct: 0 } });

	// Renderer instances and derived values are per element too: a stateful
	// renderer (object or class) or command closure never leaks across elements.
	await t.cases("per-element", t.scale(60, 1500), (rng, i, c) => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });
		const lib = ["xstate", "redux-slice", "redux-factory", "mobx"][i % 4];
		const slice = createSlice({ name: "c", initialState: { n: 0 }, reducers: { add: (s, a) => void (s.n += a.payload) } });
		const source: Any = {
			xstate: () => createMachine({ context: { n: 0 }, on: { add: { actions: assign({ n: ({ context, event }: Any) => context.n + event.payload }) as never } } } as never),
			"redux-slice": () => slice,
			"redux-factory": () => () => configureStore({ reducer: { c: slice.reducer } }),
			mobx: () => () => observable({ n: 0, add(k: number) {
				this.n += k;
			} }),
		}[lib]?.();
		const core: Any = lib === "xstate" ? coreXState : lib === "mobx" ? coreMobx : coreRedux;
		const n = (s: Any): number => (lib === "xstate" ? s.context.n : lib === "mobx" ? s.n : s.c.n);
		const add = (actor: Any, k: number) => (lib === "xstate" ? actor.send({ type: "add", payload: k }) : lib === "mobx" ? actor.add(k) : actor.dispatch(slice.actions.add(k)));
		const register = core({
			source,
			states: (s: Any) => ({ n: n(s) }),
			commands: ({ actor, host }: Any) => {
				let calls = 0;
				return {
					bump: (k: number) => {
						calls += 1;
						add(actor, k);
						return calls;
					},
					who: () => host,
				};
			},
		});
		const handles = new Map<HTMLElement, Any>();
		const Renderer = class {
			seen: HTMLElement | null = null;
			count = 0;
			render(a: Any) {
				const h = a.who();
				if (this.seen && this.seen !== h) violate(`[${lib}] one renderer instance renders for two elements`);
				this.seen = h;
				this.count += 1;
				handles.set(h, a);
				return jsx("output", { children: String(a.n) });
			}
		};
		const names = [uniqueName("iso"), uniqueName("iso")];
		for (const x of names) register(x, Renderer);
		const els = Array.from({ length: rng.range(2, 6) }, () => document.body.appendChild(document.createElement(rng.pick(names))) as HTMLElement);
		const want = els.map(() => 0);
		const calls = els.map(() => 0);
		for (let s = rng.range(5, 25); s > 0; s--) {
			const k = rng.int(els.length);
			const by = rng.range(1, 9);
			c.note([k, by]);
			const r = handles.get(els[k])?.bump(by);
			want[k] += by;
			calls[k] += 1;
			if (r !== calls[k]) violate(`[${lib}] element ${k}'s command closure counted ${r} calls, it got ${calls[k]}`);
			els.forEach((el, j) => {
				const got = el.shadowRoot?.querySelector("output")?.textContent;
				t.observe("screens-compared");
				if (got !== String(want[j])) violate(`[${lib}] element ${j} shows ${got} after element ${k} was changed; it should show ${want[j]}`);
			});
		}
		const errors = drainReported();
		if (errors.length) violate(`[${lib}] ${String(errors[0])}`);
		t.distinct(`${lib}/${els.length}/${want.join(",")}`);
		for (const el of els) el.remove();
	});
});
