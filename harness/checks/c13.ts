// C13: emit(type, detail) puts exactly one bubbling, composed event with that very
// detail on the element itself; undeclared types are refused outside production.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import { drainReported, suite, uniqueName, violate } from "../lib/core";
import { KINDS, makeWorld } from "../lib/worlds";

type Any = any;
const NAMES = ["saved", "item-added", "checkoutSubmitted", "x:y", "with space", "ünï", "constructor", "toString", "hasOwnProperty", "__proto__", "valueOf", "send2", "click", "0", "isPrototypeOf"];

export default suite(async (t) => {
	await t.cases("emit", t.scale(260, 5000), (rng, i, c) => {
		defineIgniteConfig({ renderer: rng.bool(0.7) ? "ignite-jsx" : "lit", strategy: "diff", logging: "off" } as never);
		const kind = KINDS[i % KINDS.length];
		const w = makeWorld(kind);
		const withEvents = rng.bool(0.9);
		const declared = withEvents ? rng.sample(NAMES, rng.range(0, 6)) : [];
		const emitters = new Map<HTMLElement, (type: string, ...d: unknown[]) => void>();
		const hosts: HTMLElement[] = [];
		const make = w.core({
			source: w.source,
			commands: ({ host, emit }: Any) => {
				emitters.set(host, emit);
				hosts.push(host);
				return { fire: (type: string, ...d: unknown[]) => emit(type, ...d) };
			},
			...(withEvents
				? {
						events: (event: () => unknown) => {
							const out = {} as Record<string, unknown>;
							for (const d of declared) Object.defineProperty(out, d, { value: event(), enumerable: true, configurable: true, writable: true });
							return out;
						},
					}
				: {}),
		});
		const name = uniqueName("emit");
		const args = new Map<HTMLElement, Any>();
		make(name, ((a: Any) => {
			void a;
			return null;
		}) as never);
		const outerName = uniqueName("outer");
		// nest: document > light parent > (maybe inside another shadow root) > host
		const parent = document.createElement("div");
		document.body.appendChild(parent);
		const nested = rng.bool(0.4);
		let holder: ParentNode & Node = parent;
		let outer: HTMLElement | null = null;
		if (nested) {
			customElements.define(outerName, class extends HTMLElement {});
			outer = parent.appendChild(document.createElement(outerName)) as HTMLElement;
			holder = outer.attachShadow({ mode: rng.pick(["open", "closed"]) });
		}
		const els = Array.from({ length: rng.range(1, 3) }, () => holder.appendChild(document.createElement(name)) as HTMLElement);
		for (const e of drainReported()) violate(`[${kind}] ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
		void args;
		const log: Array<{ at: string; target: EventTarget | null; e: CustomEvent }> = [];
		const all = [...NAMES, "undeclared", "another-undeclared"];
		const listen = (target: EventTarget, at: string) => {
			for (const n of all) target.addEventListener(n, (e) => log.push({ at, target: e.target, e: e as CustomEvent }));
		};
		els.forEach((el, k) => listen(el, `host${k}`));
		listen(parent, "parent");
		listen(document.body, "body");
		const detach = rng.bool(0.15) ? rng.int(els.length) : -1;
		if (detach >= 0) els[detach].remove();
		const details: unknown[] = [undefined, null, 0, "", "text", { a: 1 }, [1, 2], Symbol.for("s"), () => 1, new Map(), Number.NaN, -0, 5n, true, false, document.createElement("b"), new Event("e"), new Error("x"), Object.freeze({ f: 1 }), new Date(0), Promise.resolve(1), class {}];
		c.note({ kind, declared, withEvents, nested, elements: els.length, detach });
		for (let s = rng.range(3, 14); s > 0; s--) {
			const k = rng.int(els.length);
			const type = rng.bool(0.7) && declared.length ? rng.pick(declared) : rng.pick(all);
			const detail = rng.pick(details);
			const noDetail = detail === undefined && rng.bool();
			log.length = 0;
			const emit = emitters.get(els[k]);
			if (!emit) violate(`[${kind}] element ${k} never received a command context`);
			let threw: unknown = null;
			try {
				if (noDetail) (emit as Any)(type);
				else (emit as Any)(type, detail);
			} catch (e) {
				threw = e;
			}
			c.note([k, type, String(typeof detail), threw ? "threw" : "ok"]);
			if (!declared.includes(type)) {
				t.observe("refused");
				if (!threw) violate(`[${kind}] emitting undeclared "${type}" was accepted (declared: ${declared.join()})`);
				if (log.length) violate(`[${kind}] emitting undeclared "${type}" still dispatched an event`);
				continue;
			}
			if (threw) violate(`[${kind}] emitting declared "${type}" threw ${String(threw)}`);
			t.observe("emitted");
			const live = k !== detach;
			const wantAt = live ? [`host${k}`, "parent", "body"] : [`host${k}`];
			const gotAt = log.map((l) => l.at);
			if (gotAt.join() !== wantAt.join()) violate(`[${kind}] "${type}" from element ${k} (${live ? "connected" : "detached"}, nested=${nested}) was seen at [${gotAt}], expected [${wantAt}]`);
			const e = log[0].e;
			if (log.some((l) => l.e !== e)) violate(`[${kind}] one emit produced several events`);
			if (!(e instanceof CustomEvent) || e.type !== type) violate(`[${kind}] "${type}" arrived as ${e.type}`);
			if (!e.bubbles || !e.composed) violate(`[${kind}] "${type}" bubbles=${e.bubbles} composed=${e.composed}`);
			const got = e.detail;
			if (detail === undefined || detail === null ? got !== null && got !== undefined : !Object.is(got, detail)) violate(`[${kind}] "${type}" carried ${String(got)} instead of the detail given`);
		}
		t.distinct(`${kind}/${declared.slice().sort()}/${nested}/${els.length}/${detach}`);
		t.sample({ kind, declared, nested });
		parent.remove();
		for (const el of els) el.remove();
		w.dispose();
	});
	// Emits that answer emits: a listener that emits again, the same or another
	// name, from the same or another element, while the first is being dispatched;
	// emits from a view being rendered and from commands being set up.
	await t.cases("chains", t.scale(120, 2500), (rng, i, c) => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: rng.pick(["diff", "replace"]), logging: "off" } as never);
		const kind = KINDS[i % KINDS.length];
		const w = makeWorld(kind);
		const types = rng.sample(NAMES, rng.range(1, 3));
		const emitters = new Map<HTMLElement, (type: string, d: unknown) => void>();
		const seen: Array<{ at: number; type: string; detail: unknown }> = [];
		const want: Array<{ at: number; type: string; detail: unknown }> = [];
		let budget = 0;
		let serial = 0;
		const els: HTMLElement[] = [];
		const fire = (k: number, type: string) => {
			const detail = { serial: serial++ };
			want.push({ at: k, type, detail });
			(emitters.get(els[k]) as Any)(type, detail);
		};
		let inView: (() => void) | null = null;
		const name = uniqueName("chain");
		w.core({
			source: w.source,
			commands: ({ host, emit }: Any) => {
				emitters.set(host, emit);
				return {};
			},
			events: (event: () => unknown) => Object.fromEntries(types.map((d) => [d, event()])),
		})(name, (() => {
			const f = inView;
			inView = null;
			f?.();
			return jsx("i", {});
		}) as never);
		const box = document.body.appendChild(document.createElement("div"));
		for (let k = rng.range(1, 3); k > 0; k--) els.push(box.appendChild(document.createElement(name)) as HTMLElement);
		const plan = Array.from({ length: 40 }, () => [rng.int(els.length), rng.pick(types)] as const);
		for (const type of types)
			box.addEventListener(type, (e) => {
				seen.push({ at: els.indexOf(e.target as HTMLElement), type: e.type, detail: (e as CustomEvent).detail });
				if (budget-- > 0) fire(...plan[serial % plan.length]);
			});
		c.note({ kind, types, n: els.length });
		for (let s = rng.range(2, 8); s > 0; s--) {
			seen.length = 0;
			want.length = 0;
			budget = rng.int(6);
			const how = rng.pick(["plain", "view", "insert"]);
			const k = rng.int(els.length);
			if (how === "plain") fire(k, rng.pick(types));
			else {
				inView = () => fire(k, rng.pick(types));
				if (how === "view") (els[k] as Any).forceRender();
				else box.appendChild(els[k]);
				inView = null;
			}
			for (const e of drainReported()) violate(`[${kind}] ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			c.note([how, k, want.length]);
			t.observe("emitted", want.length);
			const key = (x: { at: number; type: string; detail: unknown }) => `${x.type}@${x.at}#${(x.detail as Any)?.serial}`;
			if (want.length !== seen.length || want.some((x) => seen.filter((y) => y.at === x.at && y.type === x.type && y.detail === x.detail).length !== 1))
				violate(`[${kind}] emitted ${want.map(key).join()}; dispatched were ${seen.map(key).join()}`);
		}
		t.distinct(`chain/${kind}/${types.length}/${els.length}/${serial}`);
		box.remove();
		w.dispose();
	});
});
