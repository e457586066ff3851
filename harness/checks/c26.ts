// C26: nothing handed to the library is modified. Views, props, options, states,
// events and sources go in deep-frozen or with their descriptors recorded; the same
// view object is rendered repeatedly and in several roots at once.
import { changedBuiltIns } from "../lib/before";
import { defineIgniteConfig, setGlobalStyles } from "@repo/src/index";
import { Fragment, jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { igniteCore as coreRedux } from "@repo/src/redux";
import { legacy_createStore } from "redux";
import { html } from "lit-html";
import { drainReported, type Rng, suite, uniqueName, violate, withConsole } from "../lib/core";
import { newRoot } from "../lib/root";
import { canon, compareSelectState, defineChild, describeSpec, editView, firstDiff, genOptions, genView, type Handler, referenceRender, type Spec, specSignature } from "../lib/view";
import { applyOp, genOp, initialModel, KINDS, makeWorld, type Model, type Op, show } from "../lib/worlds";

type Any = any;

/** Sources have a life of their own: judged by their methods and shape only. */
const opaque = new WeakSet<object>();

function deepFreeze(x: Any, seen = new Set<object>()): Any {
	if (x !== null && (typeof x === "object" || typeof x === "function") && opaque.has(x)) return x;
	if (x === null || (typeof x !== "object" && typeof x !== "function") || seen.has(x)) return x;
	if (typeof x === "object" && Object.getPrototypeOf(x) !== Object.prototype && Object.getPrototypeOf(x) !== null && !Array.isArray(x)) return x;
	seen.add(x);
	for (const k of Reflect.ownKeys(x)) deepFreeze(x[k], seen);
	return Object.freeze(x);
}
/** Everything observable about an object graph (own keys, values by identity or text, frozenness). */
function picture(x: Any, seen = new Map<object, number>(), depth = 0): string {
	if (typeof x === "function") {
		if (seen.has(x)) return `@${seen.get(x)}`;
		seen.set(x, seen.size);
		return `fn${Object.isExtensible(x) ? "" : "!"}(${Reflect.ownKeys(x).map(String).sort().join()})`;
	}
	if (x === null || typeof x !== "object") return typeof x === "string" ? JSON.stringify(x) : Object.is(x, -0) ? "-0" : String(x);
	if (seen.has(x)) return `@${seen.get(x)}`;
	seen.set(x, seen.size);
	if (opaque.has(x)) return "source";
	if (depth > 40) return "…";
	const proto = Object.getPrototypeOf(x);
	const head = `${Array.isArray(x) ? "A" : proto === Object.prototype ? "O" : proto === null ? "N" : `I:${proto.constructor?.name}`}${Object.isFrozen(x) ? "F" : Object.isExtensible(x) ? "" : "E"}`;
	if (x instanceof (globalThis as Any).Node) return head;
	return `${head}{${Reflect.ownKeys(x)
		.map((k) => `${String(k)}:${picture(x[k], seen, depth + 1)}`)
		.join(",")}}`;
}

/** The view as raw or factory-made element objects, frozen or not. */
function build(rng: Rng, s: Spec, mode: { frozen: boolean; raw: boolean }): Any {
	const done = (x: Any) => (mode.frozen && x && typeof x === "object" ? deepFreeze(x) : x);
	const make = (type: Any, props: Any, key?: Any) => {
		if (mode.raw) return done({ type, props, key: key ?? null });
		const p = mode.frozen ? deepFreeze(props) : props;
		const was = picture(p);
		const e = (Array.isArray(p.children) ? jsxs : jsx)(type, p, key);
		if (picture(p) !== was) violate("the JSX factory modified the props it was given", { was, is: picture(p) });
		return done(e);
	};
	switch (s.t) {
		case "text":
		case "empty":
			return s.v;
		case "arr":
			return done(s.kids.map((k) => build(rng, k, mode)));
		case "frag":
			return make(Fragment, { children: s.kids.map((k) => build(rng, k, mode)) });
		case "comp": {
			const C = s.as === "frag" ? (p: Any) => ({ type: Fragment, props: { children: p.children } }) : (p: Any) => p.children;
			return make(C, { children: s.kids.map((k) => build(rng, k, mode)), extra: 1 });
		}
		case "el": {
			const kids = s.kids.map((k) => build(rng, k, mode));
			return make(s.tag, { ...s.props, ...(kids.length === 0 ? {} : kids.length === 1 ? { children: kids[0] } : { children: kids }) }, s.key);
		}
	}
}

function payloads(node: ParentNode): unknown[] {
	return [...node.querySelectorAll("vp-child")].map((e) => (e as Any).payload);
}
function declaredPayloads(s: Spec): unknown[] {
	if (s.t === "el") return [...(s.tag === "vp-child" ? [s.props.payload] : []), ...(s.tag === "slot" ? [] : s.kids.flatMap(declaredPayloads))];
	return "kids" in s ? s.kids.flatMap(declaredPayloads) : [];
}

export default suite(async (t) => {
	defineChild();
	await t.cases("views", t.scale(300, 6000), (rng, _i, c) => {
		let made = 0;
		const o = genOptions(rng, { handlers: rng.bool(0.5), handlerFactory: () => Object.assign(() => {}, { id: `h${made++}` }) as Handler });
		compareSelectState(o.select !== "free");
		const mode = { frozen: rng.bool(0.6), raw: rng.bool(0.4) };
		const roots = Array.from({ length: rng.range(1, 3) }, () => newRoot());
		// a small pool of view objects, built once and used over and over
		const pool: Array<{ spec: Spec; view: Any; was: string }> = [];
		let spec = genView(rng, o);
		for (let k = rng.range(2, 4); k > 0; k--) {
			const withObject: Spec = rng.bool(0.5) ? { t: "frag", kids: [{ t: "el", tag: "vp-child", props: { payload: rng.pick<unknown>([{ n: k }, [k, { m: 1 }]]) }, kids: [] }, spec] } : spec;
			const view = build(rng, withObject, mode);
			pool.push({ spec: withObject, view, was: picture(view) });
			spec = editView(rng, spec, o);
		}
		const trace: string[] = [];
		for (let s = rng.range(3, 12); s > 0; s--) {
			const p = rng.pick(pool);
			const r = rng.int(roots.length);
			trace.push(`${pool.indexOf(p)}@${r}`);
			c.log.length = 0;
			c.note({ mode, trace, view: describeSpec(p.spec) });
			roots[r].strategy.render(p.view);
			for (const q of pool) if (picture(q.view) !== q.was) violate(`rendering modified the view object it was given`, { was: q.was.slice(0, 800), is: picture(q.view).slice(0, 800), trace });
			const ref = document.createElement("div");
			referenceRender(ref, p.spec);
			const d = firstDiff(canon(roots[r].content()), canon(ref));
			if (d) violate(`a view object that was rendered before (${trace.join(" ")}) renders wrong at ${d}`);
			const want = declaredPayloads(p.spec).filter((x) => x !== null && typeof x === "object");
			const got = payloads(roots[r].content()).filter((x) => x !== null && typeof x === "object");
			if (want.length !== got.length || want.some((x, i) => x !== got[i])) violate("an object given as a prop did not arrive as the same object");
			t.observe("objects-as-props", want.length);
			t.observe("renders-of-reused-views");
		}
		t.distinct(`${JSON.stringify(mode)}/${trace.join()}/${specSignature(pool[0].spec)}`);
		t.sample({ mode, trace });
		for (const r of roots) r.host.remove();
	});

	await t.cases("components", t.scale(160, 3000), (rng, _i, c) => {
		const kind = rng.pick(KINDS);
		const world = makeWorld(kind);
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		const frozen = rng.bool(0.6);
		const fz = <X>(x: X): X => (frozen ? deepFreeze(x) : x);
		// What users hand over, all recorded.
		const given: Array<{ what: string; x: Any; was: string }> = [];
		const record = <X>(what: string, x: X): X => {
			given.push({ what, x, was: picture(x) });
			return x;
		};
		defineIgniteConfig(record("the configuration", fz({ renderer, logging: "off", ...(rng.bool(0.4) ? { styles: { href: "./given.css", integrity: "sha", crossOrigin: "anonymous" } } : {}) })) as never);
		const src = world.source as Any;
		opaque.add(src);
		// Sources change by themselves (their state); their methods and shape must not.
		const shape = () =>
			typeof src === "function"
				? Reflect.ownKeys(src).map(String).join()
				: Reflect.ownKeys(src)
						.filter((k) => typeof k === "string")
						.map((k) => `${String(k)}:${typeof Object.getOwnPropertyDescriptor(src, k)?.value === "function" ? "fn" : ""}`)
						.join();
		const methods = typeof src === "object" ? Reflect.ownKeys(src).filter((k) => typeof Object.getOwnPropertyDescriptor(src, k)?.value === "function").map((k) => [k, src[k]] as const) : [];
		const before = shape();
		const eventMap = record("the event map", fz({ happened: { type: "happened" } as Any, toString: {} as Any }));
		const results: Any[] = [];
		const options = record(
			"the options",
			fz({
				source: src,
				events: () => eventMap,
				states: (snapshot: unknown) => {
					const r = record("a states result", fz({ text: show(world.readSnapshot(snapshot)), obj: { deep: [1] } }));
					if (given.length > 400) given.splice(200, 100);
					return r;
				},
				commands: ({ actor, host, emit }: Any) => {
					const r = record("a commands result", fz({ self: () => host, run: (op: Op) => world.viaActor(actor, op), say: (d: unknown) => emit("happened", d) }));
					results.push(r);
					return r;
				},
				extra: { untouched: true },
			}),
		);
		const rendererObject = record(
			"the renderer object",
			fz({
				name: "view",
				render(a: Any) {
					return renderer === "lit" ? html`<output>${a.text}</output>` : jsx("output", { children: a.text });
				},
			}),
		);
		const register = (world.core as Any)(options);
		const tags = [uniqueName("given"), uniqueName("given")];
		for (const tag of tags) register(tag, rendererObject);
		const els = Array.from({ length: rng.range(1, 4) }, () => ({ el: document.createElement(rng.pick(tags)) as Any, model: initialModel() }));
		let shared: Model = initialModel();
		const trace: string[] = [];
		drainReported();
		for (let s = rng.range(4, 20); s > 0; s--) {
			const m = rng.pick(els);
			const what = m.el.isConnected ? rng.weighted([[5, "send"], [2, "emit"], [1, "out"], [1, "direct"]]) : "in";
			trace.push(what);
			if (what === "in") {
				m.model = initialModel();
				document.body.appendChild(m.el);
			} else if (what === "out") m.el.remove();
			else if (what === "send") {
				const op = genOp(rng, world.shared ? shared : m.model);
				const ev = record("an event", fz(JSON.parse(JSON.stringify(world.event(op)))));
				m.el.dispatchEvent(new CustomEvent("send", { detail: ev }));
				if (world.shared) shared = applyOp(shared, op);
				else m.model = applyOp(m.model, op);
			} else if (what === "emit") {
				const detail = record("an emitted detail", fz({ a: [1, { b: 2 }], n: s }));
				let got: unknown;
				const on = (e: Any) => {
					got = e.detail;
				};
				m.el.addEventListener("happened", on, { once: true });
				rng.pick(results.filter((r) => r.self() === m.el)).say(detail);
				m.el.removeEventListener("happened", on);
				if (got !== detail) violate(`[${kind}] an emitted detail did not arrive as the same object`);
			} else if (world.direct) {
				const op = genOp(rng, shared);
				world.direct(op);
				shared = applyOp(shared, op);
			}
			for (const e of drainReported()) violate(`[${kind}/${renderer}${frozen ? "/frozen" : ""}] after ${trace.join()}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const x of els) if (x.el.isConnected) {
				const want = show(world.shared ? shared : x.model);
				if (x.el.shadowRoot.querySelector("output")?.textContent !== want) violate(`[${kind}/${renderer}${frozen ? "/frozen" : ""}] after ${trace.join()} an element shows ${x.el.shadowRoot.textContent} instead of ${want}`);
			}
			t.observe("steps");
		}
		for (const gv of given) {
			t.observe("objects-inspected");
			if (picture(gv.x) !== gv.was) violate(`[${kind}/${renderer}] ${gv.what} was modified`, { was: gv.was.slice(0, 600), is: picture(gv.x).slice(0, 600), trace });
		}
		if (shape() !== before) violate(`[${kind}] the source's own shape changed`, { before, after: shape() });
		for (const [k, f] of methods) if (src[k] !== f) violate(`[${kind}] ${String(k)}() of the user's source was replaced`);
		const changed = changedBuiltIns();
		if (changed.length) violate(`built-ins of the page were modified: ${changed.slice(0, 5).join(", ")}`);
		t.observe("built-ins-compared");
		t.distinct(`${kind}/${renderer}/${frozen}/${trace.join()}`);
		for (const x of els) x.el.remove();
		setGlobalStyles(undefined);
		world.dispose();
	});

	// States a plain reducer produced, not protected by anybody.
	await t.cases("states", t.scale(60, 800), (rng, _i, c) => {
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		const frozen = rng.bool(0.5);
		const states: Array<{ s: Any; was: string }> = [];
		const fresh = (n: number) => {
			const s: Any = { n, list: [{ id: n, tags: ["a"] }], meta: { when: new Date(0), nothing: undefined, nested: { deep: n } } };
			if (frozen) deepFreeze(s);
			states.push({ s, was: picture(s) });
			return s;
		};
		const store = legacy_createStore(((s: Any, a: Any) => (s === undefined ? fresh(0) : a.type === "up" ? fresh(s.n + 1) : s)) as Any);
		const make = (coreRedux as Any)({
			source: store,
			states: (s: Any) => ({ n: s.n, list: s.list, meta: s.meta }),
			commands: ({ actor }: Any) => ({ up: () => actor.dispatch({ type: "up" }) }),
		});
		const tag = uniqueName("plain");
		let args: Any;
		make(tag, (a: Any) => {
			args = a;
			return renderer === "lit" ? html`<b title=${a.meta.nested.deep}>${a.n}</b>` : jsx("b", { title: String(a.meta.nested.deep), children: [a.n] });
		});
		const els = Array.from({ length: rng.range(1, 3) }, () => document.body.appendChild(document.createElement(tag)) as Any);
		for (let s = rng.range(2, 8); s > 0; s--) {
			if (rng.bool()) args.up();
			else store.dispatch({ type: "up" } as Any);
			for (const e of drainReported()) violate(`${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const x of states) {
				t.observe("objects-inspected");
				if (picture(x.s) !== x.was) violate("a state object of the user's store was modified", { was: x.was, is: picture(x.s) });
			}
			for (const e of els) if (e.shadowRoot.querySelector("b").textContent !== String((store.getState() as Any).n)) violate("an element shows an old state");
			if (args.list !== (store.getState() as Any).list) violate("a derived value did not arrive as the same object");
		}
		withConsole(() => els.forEach((e) => e.remove()));
		c.note(states.length);
		t.distinct(`${renderer}/${frozen}/${states.length}/${els.length}`);
	});
});
