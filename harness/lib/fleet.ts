// A fleet of real custom elements over one real source, driven through random
// histories while monitors compare three things at every quiescent point:
//   model  - what the history should have done to the state,
//   truth  - what the real XState/Redux/MobX source holds,
//   screen - what each element's shadow DOM shows.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx, jsxs } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { drainReported, type Rng, uniqueName } from "./core";
import { applyOp, type Entry, genOp, initialModel, type Kind, makeWorld, type Model, type Op, show, type Watch, type World } from "./worlds";

export type Problem = { tag: "view" | "facade" | "effect" | "isolation" | "consistency" | "inert" | "subs" | "owner" | "error" | "context"; msg: string };

type Args = Record<string, unknown> & { state: unknown; send: (e: unknown) => void };

export type Member = {
	id: number;
	el: HTMLElement & { currentState?: unknown };
	tag: string;
	connected: boolean;
	everConnected: boolean;
	reconnected: boolean;
	model: Model;
	renders: number;
	args: Args | null;
	actor: unknown;
	watch: Watch | undefined;
	frozen: string | null;
	frozenRenders: number;
};

export type FleetOptions = {
	kind: Kind;
	renderer: "ignite-jsx" | "lit";
	cleanup?: boolean;
	tags?: number;
	factories?: number;
	prestarted?: boolean;
	entry?: Entry;
	strategy?: string;
	shape?: "fn" | "object" | "class";
};

export class Fleet {
	readonly world: World;
	readonly members: Member[] = [];
	readonly tags: string[] = [];
	shared: Model = initialModel();
	readonly problems: Problem[] = [];
	readonly stats = { ops: 0, screens: 0, renders: 0, deliveries: 0, lifecycle: 0 };
	private readonly byHost = new WeakMap<object, Member>();
	private readonly early = new WeakMap<object, Args>();
	private constructing: { actor: unknown; host: unknown }[] = [];
	private box: HTMLElement[] = [];
	private userSeen = 0;
	readonly facadeCalls = { states: 0, commands: 0 };

	constructor(readonly o: FleetOptions) {
		this.world = makeWorld(o.kind, { prestarted: o.prestarted, entry: o.entry });
		// the user's own listener, there before any element
		this.world.onChange?.(() => {
			const f = this.amid;
			this.amid = null;
			f?.();
		});
		defineIgniteConfig({ renderer: o.renderer, strategy: o.strategy ?? "diff", logging: "off" });
		for (let f = 0; f < (o.factories ?? 1); f++) {
			const register = this.world.core({
				source: this.world.source,
				cleanup: o.cleanup,
				states: (snapshot: unknown) => {
					this.facadeCalls.states += 1;
					const m = this.world.readSnapshot(snapshot);
					return { text: show(m), count: m.n };
				},
				commands: ({ actor, host, emit }: { actor: unknown; host: HTMLElement; emit: (t: string, d: unknown) => void }) => {
					this.facadeCalls.commands += 1;
					this.constructing.push({ actor, host });
					return {
						self: () => host,
						run: (op: Op) => this.world.viaActor(actor, op),
						announce: (d: unknown) => emit("announced", d),
					};
				},
				events: (event: () => unknown) => ({ announced: event() }),
			});
			for (let k = 0; k < (o.tags ?? 1); k++) {
				const name = uniqueName("fleet");
				register(name, this.renderer());
				this.tags.push(name);
			}
		}
		for (let i = 0; i < 3; i++) {
			const b = document.createElement("div");
			document.body.appendChild(b);
			this.box.push(b);
		}
		drainReported();
	}

	private renderer(): unknown {
		const view = (raw: unknown) => {
			const args = raw as Args;
			const host = (args.self as () => HTMLElement)();
			// A parsed element renders before its Member is known here.
			const m = this.byHost.get(host);
			this.stats.renders += 1;
			if (m) {
				m.renders += 1;
				m.args = args;
			} else this.early.set(host, args);
			if (this.inView?.host === host) {
				const { f } = this.inView;
				this.inView = null;
				f();
			}
			const model = this.world.read(args.state);
			const text = show(model);
			const facade = `${args.text as string}/${String(args.count)}`;
			const click = () => (args.run as (o: Op) => void)(this.pendingClick ?? { op: "nop" });
			const viaSend = () => args.send(this.world.event(this.pendingClick ?? { op: "nop" }));
			if (this.o.renderer === "lit") {
				return html`<section><output class="state">${text}</output><output class="facade">${facade}</output>${
					model.deep.on ? html`<em>on</em>` : html`<strong>off</strong>`
				}<button class="cmd" @click=${click}>c</button><button class="send" @click=${viaSend}>s</button><ul>${model.items.map((i) => html`<li>${i}</li>`)}</ul></section>`;
			}
			return jsxs("section", {
				children: [
					jsx("output", { class: "state", children: text }),
					jsx("output", { class: "facade", children: facade }),
					model.deep.on ? jsx("em", { children: "on" }) : jsx("strong", { children: "off" }),
					jsx("button", { class: "cmd", onClick: click, children: "c" }),
					jsx("button", { class: "send", onClick: viaSend, children: "s" }),
					jsx("ul", { children: model.items.map((i) => jsx("li", { children: i })) as never }),
				],
			});
		};
		if (this.o.shape === "object") return { render: view };
		if (this.o.shape === "class")
			return class {
				render(a: unknown) {
					return view(a);
				}
			};
		return view;
	}
	private pendingClick: Op | null = null;
	/** Done once by the user's own listener in the middle of the next change. */
	private amid: (() => void) | null = null;
	/** Done once by the view of one element the next time it is rendered. */
	private inView: { host: Element; f: () => void } | null = null;
	/** Elements removed while code was running: what they show counts from the next quiet point. */
	private leaving: Member[] = [];
	/** An op through one route, during which the user's listener or a view of theirs does something else. */
	actAround(where: "amid" | "view", route: Parameters<Fleet["act"]>[0], o: Op, m: Member, then: () => void): boolean {
		let done = false;
		const f = () => {
			done = true;
			then();
		};
		if (where === "amid") this.amid = f;
		else this.inView = { host: m.el, f };
		this.act(route, o, m);
		this.amid = null;
		this.inView = null;
		for (const x of this.leaving.splice(0)) if (!x.connected) this.freeze(x);
		return done;
	}
	/** An element whose view, rendered because it is being connected, does something else. */
	connectAround(m: Member, boxIndex: number, then: () => void): boolean {
		let done = false;
		this.inView = {
			host: m.el,
			f: () => {
				done = true;
				then();
			},
		};
		this.connect(m, boxIndex);
		this.inView = null;
		for (const x of this.leaving.splice(0)) if (!x.connected) this.freeze(x);
		return done;
	}
	private freeze(m: Member): void {
		m.frozen = this.screen(m);
		m.frozenRenders = m.renders;
	}

	// ---------------------------------------------------------------- actions
	create(via: "create" | "html" = "create", tag = this.tags[0], boxIndex = 0): Member {
		this.stats.lifecycle += 1;
		this.constructing = [];
		const before = this.world.watches.length;
		const m: Member = {
			id: this.members.length,
			el: null as never,
			tag,
			connected: false,
			everConnected: false,
			reconnected: false,
			model: initialModel(),
			renders: 0,
			args: null,
			actor: undefined,
			watch: undefined,
			frozen: null,
			frozenRenders: 0,
		};
		if (via === "html") {
			const holder = this.box[boxIndex];
			holder.insertAdjacentHTML("beforeend", `<${tag}></${tag}>`);
			m.el = holder.lastElementChild as HTMLElement;
			m.connected = true;
			m.everConnected = true;
		} else m.el = document.createElement(tag) as HTMLElement;
		this.byHost.set(m.el, m);
		const early = this.early.get(m.el);
		if (early) {
			m.args = early;
			m.renders = 1;
		}
		this.members.push(m);
		this.bind(m, before);
		return m;
	}
	/** Pick up the actor/private source the element was just given, if any. */
	private bind(m: Member, watchesBefore: number): void {
		for (const c of this.constructing) if (c.host === m.el) m.actor = c.actor;
		if (!this.world.shared && this.world.watches.length > watchesBefore) m.watch = this.world.watches[this.world.watches.length - 1];
		this.constructing = [];
	}
	connect(m: Member, boxIndex = 0): void {
		this.stats.lifecycle += 1;
		this.constructing = [];
		const before = this.world.watches.length;
		const was = m.connected;
		if (!was || !this.world.shared) {
			if (m.everConnected) {
				m.reconnected = true;
				m.model = initialModel();
			}
		}
		m.connected = true;
		m.everConnected = true;
		m.frozen = null;
		this.box[boxIndex].appendChild(m.el);
		this.bind(m, before);
	}
	disconnect(m: Member): void {
		this.stats.lifecycle += 1;
		m.el.remove();
		m.connected = false;
		this.freeze(m);
		this.leaving.push(m);
	}
	/** The very same event object, several times over. */
	again(o: Op, m: Member, routes: Array<"dom-send" | "arg-send">): void {
		const event = this.world.event(o);
		for (const r of routes) {
			this.stats.ops += 1;
			this.stats.deliveries += 1;
			if (r === "dom-send") m.el.dispatchEvent(new CustomEvent("send", { detail: event }));
			else m.args?.send(event);
			if (this.world.shared) this.shared = applyOp(this.shared, o);
			else m.model = applyOp(m.model, o);
		}
	}
	/** Apply an op through one route; returns whether it should take effect. */
	act(route: "dom-send" | "arg-send" | "command" | "click-command" | "click-send" | "direct" | "batch", o: Op, m?: Member): void {
		this.stats.ops += 1;
		const event = () => this.world.event(o);
		let effective = false;
		switch (route) {
			case "dom-send":
				effective = (m as Member).connected;
				(m as Member).el.dispatchEvent(new CustomEvent("send", { detail: event(), bubbles: this.stats.ops % 2 === 0 }));
				break;
			case "arg-send":
				effective = (m as Member).connected;
				(m as Member).args?.send(event());
				break;
			case "command":
				((m as Member).args?.run as (o: Op) => void)(o);
				effective = true;
				break;
			case "click-command":
			case "click-send": {
				const b = (m as Member).el.shadowRoot?.querySelector(route === "click-command" ? "button.cmd" : "button.send") as HTMLElement;
				this.pendingClick = o;
				b?.click();
				this.pendingClick = null;
				effective = true;
				break;
			}
			case "direct":
				this.world.direct?.(o);
				effective = true;
				break;
			case "batch":
				this.world.batch?.([o, o]);
				this.shared = applyOp(applyOp(this.shared, o), o);
				return;
		}
		if (!effective) return;
		this.stats.deliveries += 1;
		if (this.world.shared) this.shared = applyOp(this.shared, o);
		else (m as Member).model = applyOp((m as Member).model, o);
	}

	// --------------------------------------------------------------- monitors
	screen(m: Member): string {
		const r = m.el.shadowRoot as ShadowRoot;
		const q = (s: string) => Array.from(r.querySelectorAll(s), (x) => x.textContent).join("¦");
		return JSON.stringify([q("output.state"), q("em,strong"), q("li")]);
	}
	static expected(model: Model): string {
		return JSON.stringify([show(model), model.deep.on ? "on" : "off", model.items.join("¦")]);
	}
	facade(m: Member): string {
		return m.el.shadowRoot?.querySelector("output.facade")?.textContent ?? "<none>";
	}
	truth(m: Member): Model {
		return this.world.shared ? (this.world.truth as () => Model)() : this.world.truthOf(m.actor, m.watch);
	}
	modelOf(m: Member): Model {
		return this.world.shared ? this.shared : m.model;
	}

	/** Everything that is wrong right now. `target` is the element the last op addressed. */
	check(target?: Member): Problem[] {
		const out: Problem[] = [];
		const add = (tag: Problem["tag"], msg: string) => out.push({ tag, msg });
		for (const e of drainReported()) add("error", `exception surfaced: ${String((e as Error)?.stack ?? e).slice(0, 400)}`);
		const live = this.members.filter((m) => m.connected);
		if (this.world.shared) {
			const t = (this.world.truth as () => Model)();
			if (show(t) !== show(this.shared)) add("effect", `source holds ${show(t)}, history says ${show(this.shared)}`);
		}
		for (const m of live) {
			this.stats.screens += 1;
			const truth = this.truth(m);
			const s = this.screen(m);
			const want = Fleet.expected(truth);
			if (!this.world.shared && show(truth) !== show(m.model)) {
				add(target && m !== target ? "isolation" : "effect", `element ${m.id}'s private source holds ${show(truth)}, history says ${show(m.model)}`);
			}
			if (s !== want) add("view", `element ${m.id} (${m.tag}, ${m.reconnected ? "reconnected" : "first connection"}) shows ${s}, its source says ${want}`);
			if (!this.world.shared && target && m !== target && s !== Fleet.expected(m.model)) add("isolation", `element ${m.id} changed to ${s} though only element ${target.id} was addressed`);
			const f = this.facade(m);
			const wf = `${show(truth)}/${truth.n}`;
			if (f !== wf) add("facade", `element ${m.id}: derived values ${f}, source says ${wf}`);
			if (m.args && (m.args.self as () => HTMLElement)() !== m.el) add("context", `element ${m.id}: commands are bound to another host`);
		}
		if (this.world.shared && live.length > 1) {
			const seen = new Set(live.map((m) => this.screen(m)));
			if (seen.size > 1) add("consistency", `${live.length} elements on one source show ${seen.size} different states: ${[...seen].join(" vs ")}`);
		}
		for (const m of this.members) {
			if (m.connected || m.frozen === null) continue;
			if (m.renders !== m.frozenRenders) add("inert", `element ${m.id} rendered while disconnected`);
			if (this.screen(m) !== m.frozen) add("inert", `element ${m.id}'s content changed while disconnected`);
		}
		this.subscriptions(add, live);
		return out;
	}

	private subscriptions(add: (tag: Problem["tag"], msg: string) => void, live: Member[]): void {
		const waiting = this.members.filter((m) => !m.everConnected).length;
		if (this.world.shared) {
			const w = this.world.watches[0];
			const mine = w.active - this.userSeen;
			if (live.length === 0 && waiting === 0 && mine !== 0) add("subs", `no element is connected but ${mine} subscription(s) on the source remain`);
			if (live.length > 0 && mine < 1) add("subs", `${live.length} element(s) connected but nothing is subscribed to the source`);
			if (mine > live.length + waiting) add("subs", `${mine} subscriptions for ${live.length} connected (+${waiting} not yet connected) elements`);
			if (w.stops > 0) add("owner", "the user's own source was stopped");
			return;
		}
		// private sources: exactly those of connected (or not yet connected) elements are alive
		const used = new Set<Watch>();
		for (const m of this.members) if ((m.connected || !m.everConnected) && m.watch) used.add(m.watch);
		for (const w of this.world.watches) {
			if (this.world.kind === "xstate-machine") {
				const running = w.started - w.stops;
				if (w.started === 0) continue;
				if (used.has(w) && running !== 1) add("owner", "the private source of a live element was stopped");
				if (!used.has(w) && running !== 0) add("owner", "a private source keeps running after its element left");
				if (w.stops > 1) add("owner", `a private source was stopped ${w.stops} times`);
			} else {
				if (!used.has(w) && w.active !== 0) add("subs", `${w.active} subscription(s) remain on the private source of a departed element`);
				if (used.has(w) && w.active !== 1) add("subs", `a live element holds ${w.active} subscriptions on its private source`);
			}
		}
	}
	/** A user subscription on the shared source, which Ignite must leave alone. */
	userSubscribes(): void {
		this.userSeen += 1;
	}
	dispose(): void {
		for (const m of this.members) m.el.remove();
		for (const b of this.box) b.remove();
		this.world.dispose();
		drainReported();
	}
	boxes(): HTMLElement[] {
		return this.box;
	}
}

export type History = { weights?: Partial<Record<string, number>>; steps: number };

/** One random history; calls onStep with the problems found after each step. */
export function drive(rng: Rng, f: Fleet, h: History, note: (x: unknown) => void, onStep: (problems: Problem[], step: string) => void): string[] {
	const trace: string[] = [];
	const w = { create: 2, html: 1, connect: 3, disconnect: 2, move: 1, send: 4, arg: 3, command: 4, click: 4, direct: 4, batch: 1, dead: 1, force: 0.5, pair: 0.6, drain: 0.5, again: 0.7, together: 0.7, amid: 1, view: 1, arrive: 1, ...h.weights } as Record<string, number>;
	for (let s = 0; s < h.steps; s++) {
		const live = f.members.filter((m) => m.connected);
		const idle = f.members.filter((m) => !m.connected);
		const gone = idle.filter((m) => m.everConnected);
		const op = genOp(rng, f.world.shared ? f.shared : live[0]?.model);
		let target: Member | undefined;
		let label = "";
		const choice = rng.weighted<string>(Object.entries(w).map(([k, v]) => [v, k] as const));
		const box = rng.int(3);
		switch (choice) {
			case "create":
				if (f.members.length < 9) label = `create#${f.create("create", rng.pick(f.tags)).id}`;
				break;
			case "html":
				if (f.members.length < 9) {
					target = f.create("html", rng.pick(f.tags), box);
					label = `parse#${target.id}`;
				}
				break;
			case "connect":
				if (idle.length) {
					target = rng.pick(idle);
					f.connect(target, box);
					label = `connect#${target.id}`;
				}
				break;
			case "disconnect":
				if (live.length) {
					target = rng.pick(live);
					f.disconnect(target);
					label = `disconnect#${target.id}`;
				}
				break;
			case "drain":
				for (const m of live) f.disconnect(m);
				label = "disconnect-all";
				break;
			case "move":
				if (live.length) {
					target = rng.pick(live);
					f.connect(target, box);
					label = `move#${target.id}`;
				}
				break;
			case "send":
			case "arg":
			case "command":
			case "click": {
				if (!live.length) break;
				target = rng.pick(live);
				const route = choice === "send" ? "dom-send" : choice === "arg" ? "arg-send" : choice === "command" ? "command" : rng.bool() ? "click-command" : "click-send";
				f.act(route, op, target);
				label = `${route}#${target.id}:${op.op}`;
				break;
			}
			case "pair":
				// two elements act back to back without a check in between
				if (live.length > 1) {
					const [a, b] = rng.sample(live, 2);
					f.act("dom-send", op, a);
					f.act("command", genOp(rng), b);
					label = `pair#${a.id}#${b.id}`;
				}
				break;
			case "again":
				if (live.length) {
					target = rng.pick(live);
					f.again(op, target, Array.from({ length: rng.range(2, 3) }, () => rng.pick(["dom-send", "arg-send"] as const)));
					label = `again#${target.id}:${op.op}`;
				}
				break;
			case "together":
				if (live.length && f.world.together) {
					const who = Array.from({ length: rng.range(1, 3) }, () => rng.pick(live));
					f.world.together(() => {
						for (const x of who) f.act(rng.pick(["dom-send", "arg-send", "command"] as const), genOp(rng), x);
					});
					label = `together${who.map((x) => `#${x.id}`).join("")}`;
				}
				break;
			case "amid":
			case "view": {
				if (!live.length || (choice === "amid" && !f.world.onChange)) break;
				const acting = rng.pick(live);
				// A private source starts over when its element does: only others come back in mid-change.
				const can: Array<[string, Member]> = [["leave", acting]];
				if (f.world.shared) can.push(["move", acting]);
				for (const x of f.members) if (x !== acting) can.push([x.connected ? rng.pick(["leave", "move"]) : "enter", x]);
				const todo = rng.sample(can, Math.min(can.length, rng.range(1, 2)));
				const route = rng.pick(["dom-send", "arg-send", "command"] as const);
				const done = f.actAround(choice, route, op, acting, () => {
					for (const [what, x] of todo) what === "leave" ? f.disconnect(x) : f.connect(x, box);
				});
				label = `${choice}${done ? "" : "(not reached)"}#${acting.id}:${op.op}+${todo.map(([what, x]) => `${what}#${x.id}`).join("+")}`;
				break;
			}
			case "arrive": {
				if (!idle.length) break;
				const who = rng.pick(idle);
				const can: Array<[string, Member]> = [
					["leave", who],
					["command", who],
					["arg-send", who],
				];
				for (const x of live) can.push(["leave", x]);
				if (f.world.shared) for (const x of idle) if (x !== who) can.push(["enter", x]);
				const todo = rng.sample(can, Math.min(can.length, rng.range(1, 3)));
				// what is sent by an element that has just left has no effect: act first
				todo.sort((a, b) => Number(a[1] === who && a[0] === "leave") - Number(b[1] === who && b[0] === "leave"));
				const done = f.connectAround(who, box, () => {
					for (const [what, x] of todo) {
						if (what === "leave") f.disconnect(x);
						else if (what === "enter") f.connect(x, box);
						else f.act(what as "command", genOp(rng, f.world.shared ? f.shared : who.model), x);
					}
				});
				label = `arrive${done ? "" : "(not reached)"}#${who.id}+${todo.map(([what, x]) => `${what}#${x.id}`).join("+")}`;
				break;
			}
			case "direct":
				if (f.world.direct) {
					f.act("direct", op);
					label = `direct:${op.op}`;
				}
				break;
			case "batch":
				if (f.world.batch) {
					f.act("batch", op);
					label = `batch:${op.op}`;
				}
				break;
			case "dead":
				if (gone.length) {
					target = rng.pick(gone);
					f.act(rng.bool() ? "dom-send" : "arg-send", op, target);
					label = `dead-send#${target.id}:${op.op}`;
				}
				break;
			case "force":
				if (live.length) {
					target = rng.pick(live);
					(target.el as unknown as { forceRender: () => void }).forceRender();
					label = `force#${target.id}`;
				}
				break;
		}
		if (!label) continue;
		trace.push(label);
		note(label);
		onStep(f.check(target), label);
	}
	return trace;
}
