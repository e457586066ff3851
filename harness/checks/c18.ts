// C18: elements that left the document (and private state with them) can be
// garbage collected, however long their source, component or configuration lives.
import { defineIgniteConfig, setGlobalStyles } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { drainReported, type Rng, suite, uniqueName, violate } from "../lib/core";
import { genOp, ISOLATED_KINDS, KINDS, type Kind, makeWorld, show } from "../lib/worlds";

type Any = any;
const gc = (globalThis as Any).gc as () => void;
const breathe = () => new Promise((r) => setTimeout(r, 0));

class Decoy extends HTMLElement {
	constructor() {
		super();
		this.attachShadow({ mode: "open" });
	}
	connectedCallback() {
		(this.shadowRoot as ShadowRoot).innerHTML = "<p>x</p>";
	}
	disconnectedCallback() {}
}
/** An element that has nothing to do with Ignite goes through the same motions. */
function decoy(): void {
	if (!customElements.get("c18-decoy")) customElements.define("c18-decoy", Decoy);
	const el = document.createElement("c18-decoy");
	for (let k = 0; k < 2; k++) {
		document.body.appendChild(el);
		el.dispatchEvent(new CustomEvent("send", { detail: {} }));
		(el.shadowRoot?.querySelector("p") as HTMLElement).click();
		document.body.appendChild(el);
		el.remove();
	}
}

async function collected(refs: WeakRef<object>[]): Promise<number> {
	let alive = refs.length;
	for (let k = 0; k < 12; k++) {
		await breathe();
		gc();
		await breathe();
		alive = refs.filter((r) => r.deref() !== undefined).length;
		if (alive === 0) break;
		// give whoever remembers the last node it touched others to remember
		decoy();
	}
	return refs.length - alive;
}

// Runs in its own frame so that no local keeps an element alive.
function churn(rng: Rng, kind: Kind, renderer: string, n: number): { refs: WeakRef<object>[]; parts: WeakRef<object>[]; keep: unknown[]; private: WeakRef<object>[] } {
	const w = makeWorld(kind);
	const refs: WeakRef<object>[] = [];
	const parts: WeakRef<object>[] = [];
	const sources: WeakRef<object>[] = [];
	const withFacade = rng.bool(0.7);
	const last = { args: null as Any };
	const watched = !w.shared && (kind === "redux-factory" || kind === "mobx-factory");
	const source = watched
		? () => {
				const s = (w.source as () => object)();
				sources.push(new WeakRef(s));
				return s;
			}
		: w.source;
	const register = w.core({
		source,
		cleanup: rng.pick([undefined, true, false]),
		...(withFacade
			? {
					states: (s: unknown) => ({ text: show(w.readSnapshot(s)) }),
					commands: ({ actor, host }: Any) => {
						if (!w.shared && !watched) sources.push(new WeakRef(actor));
						return { run: (o: Any) => w.viaActor(actor, o), who: () => host };
					},
				}
			: {}),
	});
	const name = uniqueName("gone");
	register(name, (a: Any) => {
		last.args = a;
		const m = w.read(a.state);
		return renderer === "lit"
			? html`<p @click=${() => a.send(w.event({ op: "add", k: 1 }))}>${show(m)}</p>`
			: jsxs("div", { children: [jsx("p", { onClick: () => a.send(w.event({ op: "add", k: 1 })), children: show(m) }), jsx("input", { value: String(m.n) })] as never });
	});
	const stay = rng.bool(0.5) ? (document.body.appendChild(document.createElement(name)) as HTMLElement) : null;
	for (let k = 0; k < n; k++) {
		const el = document.createElement(name) as HTMLElement;
		for (let r = rng.range(1, 3); r > 0; r--) {
			document.body.appendChild(el);
			for (let q = rng.int(4); q > 0; q--) el.dispatchEvent(new CustomEvent("send", { detail: w.event(genOp(rng)) }));
			if (w.direct && rng.bool()) w.direct(genOp(rng));
			(el.shadowRoot?.querySelector("p") as HTMLElement | null)?.click();
			if (rng.bool(0.3)) document.body.appendChild(el);
			el.remove();
		}
		refs.push(new WeakRef(el));
		const p = el.shadowRoot?.querySelector("p");
		if (p) parts.push(new WeakRef(p));
	}
	last.args = null;
	w.watches.length = w.shared ? w.watches.length : 0;
	// the user's source, the component and one element that stays live on
	return { refs, parts, keep: [w, register, stay], private: sources };
}

export default suite(async (t) => {
	// (jsdom and the engine hold on to the last object they touched, until collected() shows them another.)
	// One straggler is tolerated: engines may keep the last object a call site saw.
	const SLACK = 1;
	await t.cases("churn", t.scale(20, 240), async (rng, i, c) => {
		const kind = KINDS[(i + t.job.shard) % KINDS.length];
		const renderer = rng.bool(0.6) ? "ignite-jsx" : "lit";
		setGlobalStyles(rng.bool(0.4) ? "./theme.css" : undefined);
		defineIgniteConfig({ renderer, strategy: rng.pick(["diff", "replace"]), logging: "off" } as never);
		const n = rng.range(12, 30);
		const r = churn(rng, kind, renderer, n);
		for (const e of drainReported()) violate(`[${kind}/${renderer}] ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
		c.note({ kind, renderer, n });
		const done = await collected(r.refs);
		t.observe("elements-released", done);
		if (n - done > SLACK) violate(`[${kind}/${renderer}] ${n - done} of ${n} elements are still in memory after they left the document and were forgotten`);
		const parts = await collected(r.parts);
		if (r.parts.length - parts > SLACK) violate(`[${kind}/${renderer}] rendered content of ${r.parts.length - parts} of ${n} forgotten elements is still in memory`);
		t.observe("contents-released", parts);
		if (ISOLATED_KINDS.includes(kind) && r.private.length > 5) {
			const s = await collected(r.private);
			t.observe("private-sources-released", s);
			if (r.private.length - s > SLACK + 3) violate(`[${kind}/${renderer}] ${r.private.length - s} of ${r.private.length} private sources outlive their elements`);
		}
		t.distinct(`${kind}/${renderer}/${n}/${r.refs.length}/${r.private.length}/${i}`);
		for (const k of r.keep) (k as Any)?.remove?.();
		(r.keep[0] as Any).dispose();
		setGlobalStyles(undefined);
	});

	// Content an update removes, and handlers it replaces, are released as well.
	await t.cases("content", t.scale(8, 80), async (rng, i, c) => {
		const { newRoot } = await import("../lib/root");
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" } as never);
		const live = newRoot();
		const nodes: WeakRef<object>[] = [];
		const closures: WeakRef<object>[] = [];
		const n = rng.range(12, 25);
		(() => {
			for (let k = 0; k < n; k++) {
				const payload = { k };
				closures.push(new WeakRef(payload));
				live.strategy.render(jsxs("div", { children: [jsx("button", { onClick: () => payload, data: { payload }, children: "x" }), ...(k % 2 ? [jsx("em", { children: "y" })] : []), rng.bool() ? jsx("i", {}) : jsx("b", {})] as never }) as never);
				for (const e of live.content().querySelectorAll("em")) nodes.push(new WeakRef(e));
			}
			live.strategy.render(jsx("span", { children: "end" }) as never);
		})();
		c.note({ n });
		const a = await collected(nodes);
		const b = await collected(closures);
		t.observe("contents-released", a + b);
		if (nodes.length - a > SLACK) violate(`${nodes.length - a} of ${nodes.length} removed nodes are still in memory`);
		if (n - b > SLACK) violate(`${n - b} of ${n} handlers of earlier views are still in memory`);
		t.distinct(`content/${n}/${nodes.length}/${i}`);
		live.host.remove();
	});
});
