// C17: a failure while rendering leaves nothing behind: the next render that
// succeeds shows exactly the current view.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { drainReported, suite, tick, uniqueName, violate, withConsole } from "../lib/core";
import { newRoot } from "../lib/root";
import { canon, compareSelectState, defineChild, describeSpec, editView, eventNameOf, firstDiff, genOptions, genView, type Handler, isHandlerProp, referenceRender, type Spec, specSignature, toJsx } from "../lib/view";
import { applyOp, genOp, initialModel, KINDS, makeWorld, type Model, show } from "../lib/worlds";

type Any = any;

// Crash points: everything user-supplied that rendering touches ticks this clock,
// and the k-th touch throws.
const clock = { now: 0, fuse: Number.POSITIVE_INFINITY };
class Boom extends Error {}
const touch = () => {
	clock.now += 1;
	if (clock.now === clock.fuse) throw new Boom(`crash point ${clock.fuse}`);
};
const arm = (k: number) => {
	clock.now = 0;
	clock.fuse = k;
};
const disarm = () => arm(Number.POSITIVE_INFINITY);

/** The view with every element, class, style and component able to fail. */
function rig(s: Spec): Any {
	const kids = "kids" in s ? s.kids.map(rig) : [];
	switch (s.t) {
		case "text":
		case "empty":
			return s.v;
		case "arr":
			return kids;
		case "frag":
			return toJsxFragment(kids);
		case "comp":
			return jsx(((p: Any) => {
				touch();
				const r = p.children;
				touch();
				return r;
			}) as never, { children: kids as never });
		case "el": {
			const rigged: Record<string, unknown> = {
				"data-rig": {
					toString() {
						touch();
						return "rig";
					},
				},
			};
			const props = s.tag === "select" || s.tag === "option" ? { ...s.props, ...rigged } : { ...rigged, ...s.props };
			const el = jsxs(s.tag, { ...props, children: kids as never }, s.key);
			return el;
		}
	}
}
import { Fragment } from "@repo/src/jsx/jsx-runtime";
const toJsxFragment = (kids: Any[]) => jsxs(Fragment as never, { children: kids as never });
/** The same mark on the reference tree. */
function mark(root: Element, s: Spec): void {
	void s;
	for (const e of root.querySelectorAll("*")) e.setAttribute("data-rig", "rig");
}

export default suite(async (t) => {
	defineChild();

	// Every crash point of one update, enumerated.
	await t.cases("crash-points", t.scale(420, 6000), (rng, _i, c) => {
		const o = genOptions(rng);
		compareSelectState(o.select !== "free");
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: rng.bool(0.85) ? "diff" : "replace", logging: "off" });
		const a = genView(rng, o);
		const b = editView(rng, a, o);
		const after = rng.pick([a, b, editView(rng, b, o)]);
		const first = rng.bool(0.15);
		// count the touches of the update that will fail
		const probe = newRoot();
		disarm();
		if (!first) probe.strategy.render(rig(a));
		arm(Number.POSITIVE_INFINITY);
		probe.strategy.render(rig(b));
		const total = clock.now;
		probe.host.remove();
		const points = total <= 14 ? Array.from({ length: total }, (_, k) => k + 1) : rng.sample(Array.from({ length: total }, (_, k) => k + 1), 14);
		c.note({ a: describeSpec(a), b: describeSpec(b), after: describeSpec(after), total, first });
		for (const k of points) {
			const live = newRoot();
			disarm();
			if (!first) live.strategy.render(rig(a));
			const repeat = rng.bool(0.2) ? 2 : 1;
			for (let r = 0; r < repeat; r++) {
				arm(k);
				let failed: unknown;
				try {
					live.strategy.render(rig(b));
				} catch (e) {
					failed = e;
				}
				if (failed && !(failed instanceof Boom)) violate(`a render that failed at crash point ${k} surfaced as ${String(failed)}`);
				if (!failed && r === 0) violate(`a failure at crash point ${k} of ${total} vanished silently`);
			}
			disarm();
			live.strategy.render(rig(after));
			t.observe("crash-points");
			const ref = document.createElement("div");
			const bound = new Map<Element, Map<string, Handler>>();
			referenceRender(ref, after, false, bound as Any);
			mark(ref, after);
			const d = firstDiff(canon(live.content()), canon(ref));
			if (d) violate(`after a failure at crash point ${k} of ${total}, the next view is wrong at ${d}`, { html: live.content().innerHTML });
			// and the render after that works as an ordinary update
			const next = editView(rng, after, o);
			live.strategy.render(rig(next));
			const ref2 = document.createElement("div");
			referenceRender(ref2, next);
			mark(ref2, next);
			const d2 = firstDiff(canon(live.content()), canon(ref2));
			if (d2) violate(`two renders after a failure at crash point ${k} of ${total}, the view is wrong at ${d2}`, { html: live.content().innerHTML });
			live.host.remove();
		}
		if (total > 0) t.distinct(`${specSignature(a)}→${specSignature(b)}→${specSignature(after)}`);
		t.sample({ total, b: describeSpec(b) });
	});

	// Handlers after a failed update: exactly those of the view that succeeded.
	await t.cases("handlers", t.scale(120, 2000), (rng, _i, c) => {
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" });
		const live = newRoot();
		const n = rng.range(1, 6);
		let gen = 0;
		const log: string[] = [];
		const build = (label: string) =>
			jsxs("div", {
				children: Array.from({ length: n }, (_, k) => {
					const props: Any = { "data-k": k };
					if ((k + gen) % 3 !== 0) props.onClick = () => log.push(`${label}/${k}`);
					props.title = { toString: () => (touch(), `t${k}`) };
					return jsx(rng.bool(0.9) ? "button" : "a", { ...props, children: jsx((() => (touch(), `x${k}`)) as never, {}) as never });
				}) as never,
			});
		disarm();
		for (let s = rng.range(2, 8); s > 0; s--) {
			gen += rng.int(3);
			const label = `v${s}`;
			const fail = rng.bool(0.5);
			arm(fail ? rng.range(1, n * 2) : Number.POSITIVE_INFINITY);
			let ok = true;
			try {
				live.strategy.render(build(label) as never);
			} catch (e) {
				if (!(e instanceof Boom)) throw e;
				ok = false;
			}
			disarm();
			if (!ok) continue;
			c.note(label);
			for (const [k, el] of [...live.content().querySelectorAll("[data-k]")].entries()) {
				log.length = 0;
				el.dispatchEvent(new Event("click"));
				const want = (k + gen) % 3 !== 0 ? [`${label}/${k}`] : [];
				t.observe("events-after-failure");
				if (JSON.stringify(log) !== JSON.stringify(want)) violate(`after failed renders a click ran ${JSON.stringify(log)}, the view declares ${JSON.stringify(want)}`);
			}
		}
		t.distinct(`handlers/${n}/${c.log.join()}`);
		live.host.remove();
	});
	void isHandlerProp;
	void eventNameOf;

	// Whole elements: views, derivations, commands and handlers that fail at times.
	await t.cases("elements", t.scale(260, 5000), async (rng, i, c) => {
		const kind = KINDS[i % KINDS.length];
		const renderer = rng.bool(0.6) ? "ignite-jsx" : "lit";
		defineIgniteConfig({ renderer, strategy: rng.pick(["diff", "diff", "replace"]), logging: "off" } as never);
		const w = makeWorld(kind);
		const broken = { view: new Set<number>(), part: new Set<number>(), states: false };
		// what failing views do to the state just before they fail
		const lastWords: Any[] = [];
		const spoken: Array<[number, Any]> = [];
		const idOf = new Map<HTMLElement, number>();
		const args = new Map<HTMLElement, Any>();
		const actors = new Map<HTMLElement, Any>();
		const watches = new Map<HTMLElement, Any>();
		const register = w.core({
			source: w.source,
			cleanup: rng.pick([undefined, false]),
			states: (s: unknown) => {
				if (broken.states) throw new Boom("states");
				return { text: show(w.readSnapshot(s)) };
			},
			commands: ({ actor, host }: Any) => {
				actors.set(host, actor);
				return {
					run: (o: Any) => w.viaActor(actor, o),
					fail: () => {
						throw new Boom("command");
					},
					who: () => host,
				};
			},
		});
		const name = uniqueName("frail");
		register(name, (a: Any) => {
			const id = idOf.get(a.who()) ?? -1;
			args.set(a.who(), a);
			if (broken.view.has(id)) {
				const o = lastWords.shift();
				if (o) {
					spoken.push([id, o]);
					a.send(w.event(o));
				}
				throw new Boom("view");
			}
			const m = w.read(a.state);
			const bad = broken.part.has(id);
			const s = show(m);
			if (renderer === "lit") return html`<ul>${m.items.map((x) => html`<li>${x}</li>`)}</ul><output>${s}</output><u title=${bad ? ({ toString: () => { throw new Boom("part"); } } as Any) : ""}></u><i>${a.text}</i>`;
			return jsxs("div", {
				children: [
					jsxs("ul", { children: m.items.map((x) => jsx("li", { children: x })) as never }),
					jsx("output", { children: s }),
					bad ? jsx((() => { throw new Boom("part"); }) as never, {}) : null,
					jsx("i", { children: a.text }),
				] as never,
			});
		});
		const els: HTMLElement[] = [];
		for (let k = 0, n = rng.range(1, 3); k < n; k++) {
			const before = w.watches.length;
			const el = document.createElement(name) as HTMLElement;
			idOf.set(el, k);
			if (w.watches.length > before) watches.set(el, w.watches[w.watches.length - 1]);
			els.push(el);
		}
		let shared = initialModel();
		const own: Model[] = els.map(() => initialModel());
		const trace: string[] = [];
		const guarded = (f: () => void) => {
			withConsole(() => {
				try {
					f();
				} catch (e) {
					if (!(e instanceof Boom)) violate(`[${kind}/${renderer}] ${trace.at(-1)} surfaced ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
				}
			});
		};
		const apply = (k: number, o: Any) => {
			if (w.shared) shared = applyOp(shared, o);
			else own[k] = applyOp(own[k], o);
		};
		const insert = (k: number) => {
			if (els[k].isConnected) return;
			const before = w.watches.length;
			if (!w.shared && args.get(els[k])?.was) own[k] = initialModel();
			guarded(() => document.body.appendChild(els[k]));
			if (w.watches.length > before) watches.set(els[k], w.watches[w.watches.length - 1]);
		};
		const seen = new Set<number>();
		for (let s = rng.range(5, 22); s > 0; s--) {
			const k = rng.int(els.length);
			const el = els[k];
			const what = rng.weighted([
				[2, "break-view"],
				[2, "break-part"],
				[1, "break-states"],
				[2.5, "mend"],
				[4, "op"],
				[2, "insert"],
				[1.2, "remove"],
				[1, "command-fails"],
				[0.7, "force"],
			]);
			trace.push(`${what}#${k}`);
			c.note(trace.at(-1));
			switch (what) {
				case "break-view":
					broken.view.add(k);
					if (rng.bool(0.4)) lastWords.push(genOp(rng));
					break;
				case "break-part":
					broken.part.add(k);
					break;
				case "break-states":
					// derivations run while an element is being set up, so break them only between connections
					if (els.every((x) => x.isConnected)) broken.states = true;
					break;
				case "mend":
					broken.view.clear();
					broken.part.clear();
					broken.states = false;
					break;
				case "insert":
					if (broken.states) break;
					if (!el.isConnected) {
						if (seen.has(k) && !w.shared) own[k] = initialModel();
						insert(k);
						seen.add(k);
					}
					break;
				case "remove":
					guarded(() => el.remove());
					break;
				case "op": {
					if (!el.isConnected) break;
					const o = genOp(rng, w.shared ? shared : own[k]);
					const route = rng.pick(["send", "direct"]);
					guarded(() => {
						if (route === "direct" && w.direct) w.direct(o);
						else el.dispatchEvent(new CustomEvent("send", { detail: w.event(o) }));
					});
					apply(k, o);
					break;
				}
				case "command-fails":
					guarded(() => args.get(el)?.fail());
					break;
				case "force":
					if (el.isConnected) guarded(() => (el as Any).forceRender());
					break;
			}
			for (const [q, o] of spoken.splice(0)) apply(q, o);
			drainReported();
		}
		// everything works again: one more change must put every element right
		broken.view.clear();
		broken.part.clear();
		broken.states = false;
		await tick();
		drainReported();
		for (let k = 0; k < els.length; k++) {
			if (!els[k].isConnected) continue;
			const o = { op: "push" as const, s: `end${k}` };
			trace.push(`final#${k}`);
			if (w.shared) {
				guarded(() => els[k].dispatchEvent(new CustomEvent("send", { detail: w.event(o) })));
				shared = applyOp(shared, o);
			} else {
				els[k].dispatchEvent(new CustomEvent("send", { detail: w.event(o) }));
				own[k] = applyOp(own[k], o);
			}
		}
		await tick();
		for (const e of drainReported()) violate(`[${kind}/${renderer}] after everything was repaired: ${String((e as Error)?.stack ?? e).slice(0, 400)}`);
		els.forEach((el, k) => {
			if (!el.isConnected) return;
			const m = w.shared ? shared : own[k];
			if (w.shared) {
				const truth = (w.truth as () => Model)();
				if (show(truth) !== show(shared)) violate(`[${kind}] failures corrupted the source: it holds ${show(truth)}, history says ${show(shared)}`);
			}
			t.observe("recovered-elements");
			const r = el.shadowRoot as ShadowRoot;
			const got = JSON.stringify([[...r.querySelectorAll("output")].map((x) => x.textContent), [...r.querySelectorAll("li")].map((x) => x.textContent), [...r.querySelectorAll("i")].map((x) => x.textContent)]);
			const want = JSON.stringify([[show(m)], m.items, [show(m)]]);
			if (got !== want) violate(`[${kind}/${renderer}] after failures (${trace.join(" ")}) element ${k} shows ${got}, expected ${want}`);
		});
		t.distinct(`${kind}/${renderer}/${trace.join(" ")}`);
		for (const el of els) el.remove();
		w.dispose();
		await tick();
		drainReported();
	});
});
