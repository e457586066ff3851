// C24: however a component's view is written - function, object or class with a
// render method - it displays the same, with its own `this`; a registration that
// is refused leaves everything that was defined before as it was.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { drainReported, suite, uniqueName, violate, withConsole } from "../lib/core";
import { applyOp, genOp, initialModel, KINDS, makeWorld, type Model, type Op, show, type World } from "../lib/worlds";

type Any = any;
type View = (args: Any, own?: string) => unknown;

/** Every way to write a renderer; `own` proves that `this` was the renderer's own object. */
type Form = { make: (view: View) => unknown; own: string; perElement: boolean };
type Log = Array<{ self: object; host: HTMLElement }>;
const FORMS: Record<string, (log: Log) => Form> = {
	arrow: () => ({ make: (v) => (a: Any) => v(a), own: "-", perElement: false }),
	"function expression": () => ({
		make: (v) =>
			function named(a: Any) {
				return v(a);
			},
		own: "-",
		perElement: false,
	}),
	"bound function": () => ({
		make: (v) =>
			function (this: Any, a: Any) {
				return v(a, this.own);
			}.bind({ own: "bound" }),
		own: "bound",
		perElement: false,
	}),
	"function with properties": () => ({ make: (v) => Object.assign((a: Any) => v(a), { render: "not a method", displayName: "V" }), own: "-", perElement: false }),
	"object": () => ({
		make: (v) => ({
			own: "object",
			render(a: Any) {
				return v(a, this.own);
			},
		}),
		own: "object",
		perElement: false,
	}),
	"frozen object": () => ({
		make: (v) =>
			Object.freeze({
				own: "frozen",
				render(this: Any, a: Any) {
					return v(a, this.own);
				},
			}),
		own: "frozen",
		perElement: false,
	}),
	"object without a prototype": () => ({
		make: (v) =>
			Object.assign(Object.create(null), {
				own: "bare",
				render(this: Any, a: Any) {
					return v(a, this.own);
				},
			}),
		own: "bare",
		perElement: false,
	}),
	"object inheriting render": () => ({
		make: (v) =>
			Object.assign(
				Object.create({
					render(this: Any, a: Any) {
						return v(a, this.own);
					},
				}),
				{ own: "heir" },
			),
		own: "heir",
		perElement: false,
	}),
	"object with a render getter": () => ({
		make: (v) => ({
			own: "getter",
			get render() {
				return function (this: Any, a: Any) {
					return v(a, this.own);
				};
			},
		}),
		own: "getter",
		perElement: false,
	}),
	"instance with private members": () => ({
		make: (v) =>
			new (class {
				#own = "private";
				render(a: Any) {
					return v(a, this.#own);
				}
			})(),
		own: "private",
		perElement: false,
	}),
	"class": (log) => ({
		make: (v) =>
			class {
				own = "class";
				render(a: Any) {
					log.push({ self: this, host: a.self() });
					return v(a, this.own);
				}
			},
		own: "class",
		perElement: true,
	}),
	"class with private members": (log) => ({
		make: (v) =>
			class {
				#own = "secret";
				render(a: Any) {
					log.push({ self: this, host: a.self() });
					return v(a, this.#own);
				}
			},
		own: "secret",
		perElement: true,
	}),
	"class inheriting render": (log) => ({
		make: (v) => {
			class Base {
				own = "base";
				render(a: Any) {
					log.push({ self: this, host: a.self() });
					return v(a, this.own);
				}
			}
			class Mid extends Base {}
			return class extends Mid {
				own = "derived";
			};
		},
		own: "derived",
		perElement: true,
	}),
	"class calling super and helpers": (log) => ({
		make: (v) => {
			class Base {
				helper() {
					return "help";
				}
				render(a: Any): unknown {
					return v(a, `${this.helper()}ed`);
				}
			}
			return class extends Base {
				helper() {
					return `super-${super.helper()}`;
				}
				render(a: Any) {
					log.push({ self: this, host: a.self() });
					return super.render(a);
				}
			};
		},
		own: "super-helped",
		perElement: true,
	}),
	"constructor function": (log) => ({
		make: (v) => {
			function Old(this: Any) {
				this.own = "old";
			}
			Old.prototype.render = function (this: Any, a: Any) {
				log.push({ self: this, host: a.self() });
				return v(a, this.own);
			};
			return Old;
		},
		own: "old",
		perElement: true,
	}),
};
const NAMES = Object.keys(FORMS);

const BAD: Record<string, unknown> = {
	undefined: undefined,
	null: null,
	number: 3,
	string: "<b>hi</b>",
	true: true,
	symbol: Symbol("view"),
	"empty object": {},
	array: [],
	"render that is text": { render: "<b/>" },
	"render that is null": { render: null },
	"object with Render": { Render() {} },
	date: new Date(),
};

function register(world: World, renderer: string, cleanup: boolean | undefined) {
	return world.core({
		source: world.source,
		cleanup,
		commands: ({ actor, host }: Any) => ({ self: () => host, run: (op: Op) => world.viaActor(actor, op) }),
	}) as (tag: string, view: unknown) => void;
}
const viewFor =
	(world: World, renderer: string): View =>
	(a, own = "-") => {
		const m = world.read(a.state);
		const click = () => a.send(world.event({ op: "add", k: 3 }));
		return renderer === "lit"
			? html`<output>${show(m)}</output><i>${own}</i><button @click=${click}></button><ul>${m.items.map((x) => html`<li>${x}</li>`)}</ul>`
			: jsxs("div", { children: [jsx("output", { children: show(m) }), jsx("i", { children: own }), jsx("button", { onClick: click }), jsx("ul", { children: m.items.map((x) => jsx("li", { children: x })) })] });
	};

export default suite(async (t) => {
	await t.cases("forms", t.scale(260, 5000), (rng, index, c) => {
		const kind = rng.pick(KINDS);
		const world = makeWorld(kind);
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		const define = register(world, renderer, rng.pick([undefined, false]));
		const names = [NAMES[index % NAMES.length], ...rng.sample(NAMES, rng.range(1, 4))];
		c.note({ kind, renderer, names });
		drainReported();
		type Part = { name: string; tag: string; form: Form; log: Log };
		const parts: Part[] = names.map((name) => {
			const log: Log = [];
			const form = FORMS[name](log);
			const tag = uniqueName("form");
			define(tag, form.make(viewFor(world, renderer)));
			return { name, tag, form, log };
		});
		type Member = { part: Part; el: Any; model: Model };
		const members: Member[] = [];
		for (const p of parts) for (let k = rng.range(1, 3); k > 0; k--) members.push({ part: p, el: document.createElement(p.tag), model: initialModel() });
		let shared = initialModel();
		const trace: string[] = [];
		const live = () => members.filter((m) => m.el.isConnected);
		const act = (m: Member, op: Op, how: string) => {
			if (how === "event") m.el.dispatchEvent(new CustomEvent("send", { detail: world.event(op) }));
			else if (how === "click") m.el.shadowRoot.querySelector("button").click();
			if (world.shared) shared = applyOp(shared, op);
			else m.model = applyOp(m.model, op);
		};
		// With a user's own source and default cleanup all elements may come and go; the
		// state is the source's. With a blueprint a reinserted element starts over.
		for (let s = rng.range(4, 24); s > 0; s--) {
			const m = rng.pick(members);
			const what = m.el.isConnected ? rng.weighted([[5, "event"], [3, "click"], [1, "direct"], [1, "out"]]) : "in";
			trace.push(`${what}:${members.indexOf(m)}`);
			if (what === "in") {
				if (!world.shared) m.model = initialModel();
				document.body.appendChild(m.el);
			} else if (what === "out") m.el.remove();
			else if (what === "event") act(m, genOp(rng, world.shared ? shared : m.model), "event");
			else if (what === "click") act(m, { op: "add", k: 3 }, "click");
			else if (world.direct) {
				const op = genOp(rng, shared);
				world.direct(op);
				shared = applyOp(shared, op);
			}
			for (const e of drainReported()) violate(`[${kind}/${renderer}/${m.part.name}] after ${trace.join()}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			for (const x of live()) {
				const want = world.shared ? shared : x.model;
				const root = x.el.shadowRoot as ShadowRoot;
				const got = root.querySelector("output")?.textContent;
				if (got !== show(want)) violate(`[${kind}/${renderer}] view written as ${x.part.name} shows ${got}, its state is ${show(want)}`, { trace });
				const own = root.querySelector("i")?.textContent;
				if (own !== x.part.form.own) violate(`[${kind}/${renderer}] view written as ${x.part.name} ran with another object as this (${own})`, { trace });
				const li = [...root.querySelectorAll("li")].map((e) => e.textContent).join();
				if (li !== want.items.join()) violate(`[${kind}/${renderer}] view written as ${x.part.name} lists ${li}`, { trace });
				t.observe("screens-compared");
			}
		}
		for (const p of parts) {
			if (!p.form.perElement) continue;
			const ofHost = new Map<HTMLElement, object>();
			const ofSelf = new Map<object, HTMLElement>();
			for (const { self, host } of p.log) {
				if (!world.shared) {
					if (ofHost.has(host) && ofHost.get(host) !== self) violate(`[${kind}] one element was rendered by two instances of its class (${p.name}): what an instance remembers is lost`, { trace });
					if (ofSelf.has(self) && ofSelf.get(self) !== host) violate(`[${kind}] two elements share one instance of the class (${p.name}): what it remembers leaks between them`, { trace });
				}
				ofHost.set(host, self);
				ofSelf.set(self, host);
			}
			t.observe("instances", ofSelf.size);
		}
		t.distinct(`${kind}/${renderer}/${names.join()}/${trace.join()}`);
		t.sample({ kind, renderer, names, trace });
		for (const m of members) m.el.remove();
		world.dispose();
	});

	await t.cases("refused", t.scale(150, 2500), (rng, _i, c) => {
		const kind = rng.pick(KINDS);
		const world = makeWorld(kind);
		const renderer = rng.pick(["ignite-jsx", "lit"]);
		defineIgniteConfig({ renderer, logging: "off" } as never);
		const define = register(world, renderer, undefined);
		const form = rng.pick(NAMES);
		const tag = uniqueName("orig");
		define(tag, FORMS[form]([]).make(viewFor(world, renderer)));
		const original = customElements.get(tag);
		const el = document.body.appendChild(document.createElement(tag)) as Any;
		let model = initialModel();
		const touch = (why: string) => {
			const op = genOp(rng, model);
			el.dispatchEvent(new CustomEvent("send", { detail: world.event(op) }));
			model = applyOp(model, op);
			for (const e of drainReported()) violate(`[${kind}/${renderer}] after ${why}: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
			const got = el.shadowRoot.querySelector("output")?.textContent;
			if (got !== show(model)) violate(`[${kind}/${renderer}] after ${why} the component shows ${got}, its state is ${show(model)}`);
			t.observe("screens-compared");
		};
		touch("definition");
		const foreign = uniqueName("foreign");
		customElements.define(foreign, class extends HTMLElement {});
		for (let s = rng.range(1, 5); s > 0; s--) {
			const otherKind = rng.bool(0.5) ? kind : rng.pick(KINDS);
			const other = otherKind === kind && rng.bool(0.5) ? world : makeWorld(otherKind);
			const again = other === world && rng.bool(0.5) ? define : register(other, renderer, undefined);
			const dup = rng.bool(0.5);
			if (dup) {
				const name = rng.pick([tag, tag, foreign]);
				const subs = other.watches.map((w) => w.totalSubs).join();
				let error: unknown;
				try {
					again(name, FORMS[rng.pick(NAMES)]([]).make(() => (renderer === "lit" ? html`intruder` : "intruder")));
				} catch (e) {
					error = e;
				}
				if (!(error instanceof Error) && !(error instanceof (globalThis as Any).DOMException)) violate(`[${kind}] registering "${name}" a second time was not refused`);
				if (other !== world && other.watches.map((w) => w.totalSubs).join() !== subs) violate(`[${otherKind}] a refused registration subscribed to the source`);
				t.observe("duplicates-refused");
			} else {
				const bad = rng.pick(Object.keys(BAD));
				c.note(bad);
				const name = uniqueName("bad");
				let refused = false;
				withConsole(() => {
					try {
						again(name, BAD[bad]);
						// At the latest, making an element says so.
						try {
							document.body.appendChild(document.createElement(name)).remove();
						} catch {
							refused = true;
						}
					} catch {
						refused = true;
					}
				});
				if (drainReported().length) refused = true;
				if (!refused) violate(`[${otherKind}/${renderer}] a renderer that is ${bad} was accepted without an error`);
				t.observe("invalid-refused");
			}
			if (customElements.get(tag) !== original) violate("the original definition was replaced");
			touch(dup ? "a refused duplicate" : "a refused renderer");
			if (other !== world) other.dispose();
		}
		// and new elements of the original component still work
		const fresh = document.body.appendChild(document.createElement(tag)) as Any;
		for (const e of drainReported()) violate(`[${kind}/${renderer}] a new element after refused registrations: ${String((e as Error)?.stack ?? e).slice(0, 300)}`);
		const want = world.shared ? show(model) : show(initialModel());
		if (fresh.shadowRoot.querySelector("output")?.textContent !== want) violate(`[${kind}/${renderer}] a new element after refused registrations shows ${fresh.shadowRoot.innerHTML}`);
		t.distinct(`refused/${kind}/${renderer}/${form}/${c.log.join()}`);
		el.remove();
		fresh.remove();
		world.dispose();
	});
});
