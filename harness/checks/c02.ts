// C02: every declared handler of the current view, and only those, runs exactly
// once per event, after any sequence of renders.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import { type Rng, suite, violate, drainReported } from "../lib/core";
import { type Bound, defineChild, describeSpec, editView, genOptions, genView, type Handler, hoistJsx, referenceRender, type Spec, specSignature, toJsx } from "../lib/view";
import { newRoot } from "../lib/root";

export default suite(async (t) => {
	defineChild();
	defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });

	await t.cases("sequence", t.scale(330, 5000), (rng, _i, c) => {
		let log: string[] = [];
		let serial = 0;
		const pool: Handler[] = [];
		const handlerFactory = (): Handler => {
			// Handlers are fresh closures most of the time, shared or reused at others.
			if (pool.length && rng.bool(0.3)) return rng.pick(pool);
			const id = `h${serial++}`;
			const h = Object.assign((e: Event) => void log.push(`${id}@${(e.currentTarget as Element).localName}`), { id }) as Handler;
			pool.push(h);
			return h;
		};
		const o = genOptions(rng, { handlers: true, handlerFactory, maxDepth: rng.range(1, 4), maxKids: rng.range(1, 4) });
		hoistJsx(rng.bool(0.3));
		const live = newRoot();
		let view: Spec = genView(rng, o);
		const earlier: Spec[] = [];
		const sigs: string[] = [];
		for (let s = rng.range(2, 12); s > 0; s--) {
			c.log.length = 0;
			c.note({ previous: earlier.length ? describeSpec(earlier[earlier.length - 1]) : null });
			if (earlier.length) view = rng.bool(0.12) ? rng.pick(earlier) : editView(rng, view, o);
			earlier.push(view);
			sigs.push(specSignature(view));
			c.note({ view: describeSpec(view) });
			live.strategy.render(toJsx(view) as never);
			const bound: Bound = new Map();
			const ref = document.createElement("div");
			referenceRender(ref, view, false, bound);
			const a = Array.from(live.content().querySelectorAll("*"));
			const b = Array.from(ref.querySelectorAll("*"));
			if (a.length !== b.length || a.some((x, i) => x.localName !== b[i].localName)) violate(`the DOM has ${a.length} element(s), the view ${b.length}: handlers cannot be matched`, { html: live.content().innerHTML });
			const names = new Set<string>(["click", "nothing-declared"]);
			for (const m of bound.values()) for (const n of m.keys()) names.add(n);
			const targets = a.length > 24 ? rng.sample(a.map((_, i) => i), 24) : a.map((_, i) => i);
			for (const i of targets) {
				for (const name of names) {
					for (const bubbles of [false, true]) {
						log = [];
						a[i].dispatchEvent(new CustomEvent(name, { bubbles }));
						const want: string[] = [];
						for (let e: Element | null = b[i]; e && e !== ref; e = bubbles ? e.parentElement : null) {
							const h = bound.get(e)?.get(name);
							if (h) want.push(`${h.id}@${e.localName}`);
						}
						t.observe("events");
						t.observe("handler-runs", log.length);
						if (log.join() !== want.join()) violate(`"${name}" (${bubbles ? "bubbling" : "direct"}) on <${a[i].localName}> ran [${log}], the view declares [${want}]`, { html: live.content().innerHTML });
					}
				}
			}
		}
		const errors = drainReported();
		if (errors.length) violate(`error during dispatch: ${String(errors[0])}`);
		t.distinct(sigs.join("→"));
		t.sample({ first: describeSpec(earlier[0]) });
		live.host.remove();
	});

	// The usual life of a handler: it changes state, which re-renders the very view
	// it belongs to while its event is still travelling.
	await t.cases("rerender-in-handler", t.scale(120, 2500), (rng, _i, c) => {
		const live = newRoot();
		const depth = rng.range(1, 5);
		const names = ["click", "item-added", "input"];
		const declared = Array.from({ length: depth }, () => new Set(rng.sample(names, rng.range(0, 3))));
		let version = 0;
		let ran: string[] = [];
		const speak = Array.from({ length: depth }, () => rng.bool(0.7));
		const fresh = rng.bool(0.7);
		const cache = new Map<string, (e: Event) => void>();
		const make = (level: number, name: string) => {
			const key = `${level}/${name}`;
			const mine = version;
			const f = cache.get(key);
			if (!fresh && f) return f;
			const h = () => {
				ran.push(`${key}${fresh ? (mine === version ? "" : "!stale") : ""}`);
				if (speak[level]) render();
			};
			cache.set(key, h);
			return h;
		};
		const build = (level: number): unknown => {
			const props: Record<string, unknown> = { "data-v": version, "data-l": level };
			for (const n of declared[level]) props[n === "item-added" ? "onItemAdded" : `on${n[0].toUpperCase()}${n.slice(1)}`] = make(level, n);
			return level + 1 < depth ? jsxs("div", { ...props, children: [`v${version}`, build(level + 1)] as never }) : jsx("button", { ...props, children: `v${version}` });
		};
		const render = () => {
			version += 1;
			live.strategy.render(build(0) as never);
		};
		render();
		c.note({ depth, declared: declared.map((d) => [...d]), speak, fresh });
		for (let k = rng.range(2, 8); k > 0; k--) {
			const name = rng.pick(names);
			const bubbles = rng.bool(0.8);
			const target = live.content().querySelector("button") as Element;
			if (rng.bool(0.2)) mutateDeclared(rng, declared, names, render);
			ran = [];
			target.dispatchEvent(new CustomEvent(name, { bubbles }));
			const want: string[] = [];
			for (let l = depth - 1; l >= 0; l--) {
				if (declared[l].has(name)) want.push(`${l}/${name}`);
				if (!bubbles) break;
			}
			c.note({ name, bubbles, ran });
			t.observe("events");
			t.observe("handler-runs", ran.length);
			if (ran.join() !== want.join()) violate(`"${name}" ran [${ran}], the view declares [${want}] (handlers re-render their own view)`);
		}
		t.distinct(`re/${depth}/${declared.map((d) => [...d].sort().join("+")).join("/")}/${speak}/${fresh}`);
		live.host.remove();
	});
});

function mutateDeclared(rng: Rng, declared: Array<Set<string>>, names: string[], render: () => void): void {
	const d = rng.pick(declared);
	const n = rng.pick(names);
	if (d.has(n)) d.delete(n);
	else d.add(n);
	render();
}
