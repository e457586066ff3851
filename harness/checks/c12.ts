// C12: derived values are always the user's derivation of the current state, and
// commands act on the element (and source) they were handed to.
import { defineIgniteConfig } from "@repo/src/index";
import { jsx } from "@repo/src/jsx/jsx-runtime";
import "@repo/src/renderers/ignite-jsx";
import "@repo/src/renderers/lit";
import { html } from "lit-html";
import { drainReported, suite, uniqueName, violate } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";
import { applyOp, genOp, initialModel, makeWorld, type Model, type Op, show } from "../lib/worlds";

type Any = any;

const DERIVE: Record<string, (m: Model) => unknown> = {
	count: (m) => m.n,
	doubled: (m) => m.n * 2,
	isEmpty: (m) => m.items.length === 0,
	last: (m) => m.items[m.items.length - 1],
	label: (m) => m.label || null,
	open: (m) => m.deep.list.filter((x) => !x.ok).length,
	whole: (m) => show(m),
	nothing: () => undefined,
	zero: () => 0,
	fn: (m) => () => m.n,
	_hidden: (m) => m.n + 1,
	$cost: (m) => -m.n,
	"kebab-name": (m) => m.label,
	0: (m) => m.n % 3,
	"": (m) => m.items.length,
	toString: (m) => `#${m.n}`,
	valueOf: (m) => m.deep.list.length,
};
const plainText = (v: unknown): string => (typeof v === "function" ? `fn:${String(v())}` : v === undefined ? "undefined" : JSON.stringify(v));

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 200, thorough: 4000, kinds: KINDS, tags: ["facade", "context", "error"], start: 2 });

	await t.cases("derivations", t.scale(160, 3000), (rng, i, c) => {
		const kind = KINDS[i % KINDS.length];
		const renderer = rng.bool(0.6) ? "ignite-jsx" : "lit";
		defineIgniteConfig({ renderer, strategy: "diff", logging: "off" } as never);
		const w = makeWorld(kind);
		const keys = rng.sample(Object.keys(DERIVE), rng.range(1, 6));
		const inits = new Map<HTMLElement, number>();
		const actors = new Map<HTMLElement, Any>();
		const watches = new Map<HTMLElement, Any>();
		const perHost = new Map<HTMLElement, Any>();
		const calls: Array<{ host: HTMLElement; name: string; args: unknown[] }> = [];
		// somebody who listens to the source before any element does, and asks the commands about it
		let wrong: string | undefined;
		const forget =
			(rng.bool(0.4) &&
				w.onChange?.(() => {
					for (const [host, a] of perHost) {
						if (!host.isConnected) continue;
						const got = show(a.read());
						const want = show((w.truth as () => Model)());
						t.observe("command-calls");
						if (got !== want) wrong ??= `a command run during a change reads ${got}, the source holds ${want}`;
					}
				})) ||
			(() => {});
		const register = w.core({
			source: w.source,
			states: (s: unknown) => Object.fromEntries(keys.map((k) => [k, DERIVE[k](w.readSnapshot(s))])),
			commands: ({ actor, host }: Any) => {
				inits.set(host, (inits.get(host) ?? 0) + 1);
				actors.set(host, actor);
				return {
					run: (o: Op) => w.viaActor(actor, o),
					read: () => w.readActor(actor),
					echo: (...args: unknown[]) => {
						calls.push({ host, name: "echo", args });
						return args;
					},
					later: async (o: Op) => {
						await Promise.resolve();
						w.viaActor(actor, o);
						return "ok";
					},
					who: () => host,
				};
			},
		});
		const name = uniqueName("facade");
		const view = (a: Any) => {
			perHost.set(a.who(), a);
			const s = keys.map((k) => `${k}=${plainText(a[k])}`).join(";");
			return renderer === "lit" ? html`<output>${s}</output>` : jsx("output", { children: s });
		};
		register(name, view);
		const els = Array.from({ length: rng.range(1, 3) }, () => {
			const before = w.watches.length;
			const el = document.createElement(name) as HTMLElement;
			document.body.appendChild(el);
			if (w.watches.length > before) watches.set(el, w.watches[w.watches.length - 1]);
			return el;
		});
		const errors = drainReported();
		if (errors.length) violate(`[${kind}] ${String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300)}`);
		let shared = initialModel();
		const own = els.map(() => initialModel());
		const connections = els.map(() => 1);
		const judge = (after: string) => {
			if (wrong) violate(`[${kind}/${renderer}] after ${after}: ${wrong}`);
			els.forEach((el, k) => {
				if (!el.isConnected) return;
				const m = w.shared ? shared : own[k];
				const want = keys.map((key) => `${key}=${plainText(DERIVE[key](m))}`).join(";");
				const got = el.shadowRoot?.querySelector("output")?.textContent;
				t.observe("derivations");
				if (got !== want) violate(`[${kind}/${renderer}] after ${after}: element ${k} was given ${got}, its state derives ${want}`);
				const a = perHost.get(el);
				if (!a || a.who() !== el) violate(`[${kind}] commands of element ${k} are bound to another element`);
				if (!inits.get(el) || (inits.get(el) as number) > connections[k] || (!w.shared && inits.get(el) !== connections[k])) violate(`[${kind}] commands of element ${k} were set up ${inits.get(el)} times in ${connections[k]} connection(s)`);
				if (show(a.read()) !== show(m)) violate(`[${kind}] after ${after}: a command of element ${k} reads ${show(a.read())}, its source holds ${show(m)}`);
				if (!w.shared && show(w.truthOf(actors.get(el), watches.get(el))) !== show(own[k])) violate(`[${kind}] element ${k}'s commands act on another source`);
				for (const key of keys) if (!(key in a)) violate(`[${kind}] derived value ${key} is missing from the view's arguments`);
				if (typeof a.send !== "function" || a.state === undefined) violate(`[${kind}] state/send are missing from the view's arguments`);
			});
		};
		judge("connecting");
		c.note({ kind, renderer, keys, elements: els.length });
		for (let s = rng.range(3, 15); s > 0; s--) {
			const k = rng.int(els.length);
			const op = genOp(rng, w.shared ? shared : own[k]);
			const how = rng.pick(["run", "run", "echo", "send", "leave"]);
			c.note([how, k, op]);
			if (how === "leave") {
				// one element, or all of them, out and in again
				const who = rng.bool() ? els.map((_, q) => q) : [k];
				for (const q of who) els[q].remove();
				if (w.direct && rng.bool()) {
					w.direct(op);
					shared = applyOp(shared, op);
				}
				for (const q of who) {
					const before = w.watches.length;
					document.body.appendChild(els[q]);
					if (w.watches.length > before) watches.set(els[q], w.watches[w.watches.length - 1]);
					connections[q] += 1;
					own[q] = initialModel();
				}
				const trouble = drainReported();
				if (trouble.length) violate(`[${kind}] ${String((trouble[0] as Error)?.stack ?? trouble[0]).slice(0, 300)}`);
				judge(`reinserting ${who}`);
				continue;
			}
			if (how === "echo") {
				const args: unknown[] = rng.bool(0.7) ? [op, s, undefined].slice(0, rng.int(4)) : Array.from({ length: rng.range(4, 20) }, (_, k) => rng.pick<unknown>([k, null, "", false, "s"]));
				const r = perHost.get(els[k]).echo(...args);
				const last = calls[calls.length - 1];
				if (last?.host !== els[k] || JSON.stringify(last.args) !== JSON.stringify(args) || JSON.stringify(r) !== JSON.stringify(args)) violate(`[${kind}] a command called with ${JSON.stringify(args)} ran as ${JSON.stringify(last?.args)} and returned ${JSON.stringify(r)}`);
				t.observe("command-calls");
				continue;
			}
			if (how === "run") perHost.get(els[k]).run(op);
			else perHost.get(els[k]).send(w.event(op));
			t.observe("command-calls");
			if (w.shared) shared = applyOp(shared, op);
			else own[k] = applyOp(own[k], op);
			judge(`${how} on element ${k}: ${op.op}`);
		}
		t.distinct(`${kind}/${renderer}/${keys.slice().sort()}/${els.length}/${show(shared)}/${own.map(show)}`);
		forget();
		for (const el of els) el.remove();
		w.dispose();
	});

	// Commands that finish later act on the same element's source.
	await t.cases("late-commands", t.scale(24, 400), async (rng, i, c) => {
		const kind = KINDS[i % KINDS.length];
		defineIgniteConfig({ renderer: "ignite-jsx", strategy: "diff", logging: "off" } as never);
		const w = makeWorld(kind);
		const perHost = new Map<HTMLElement, Any>();
		const register = w.core({
			source: w.source,
			states: (s: unknown) => ({ count: w.readSnapshot(s).n }),
			commands: ({ actor, host }: Any) => ({
				later: async (k: number) => {
					await Promise.resolve();
					w.viaActor(actor, { op: "add", k });
					return k;
				},
				who: () => host,
			}),
		});
		const name = uniqueName("late");
		register(name, (a: Any) => {
			perHost.set(a.who(), a);
			return jsx("output", { children: String(a.count) });
		});
		const els = Array.from({ length: 3 }, () => document.body.appendChild(document.createElement(name)) as HTMLElement);
		const want = [0, 0, 0];
		const all = Array.from({ length: rng.range(2, 8) }, () => {
			const k = rng.int(3);
			const by = rng.range(1, 5);
			if (w.shared) want.fill(want[0] + by);
			else want[k] += by;
			return perHost.get(els[k]).later(by) as Promise<number>;
		});
		await Promise.all(all);
		c.note({ kind, want });
		els.forEach((el, k) => {
			const got = el.shadowRoot?.querySelector("output")?.textContent;
			t.observe("derivations");
			if (got !== String(want[k])) violate(`[${kind}] after concurrent asynchronous commands element ${k} shows ${got}, expected ${want[k]}`);
		});
		t.distinct(`late/${kind}/${want}`);
		for (const el of els) el.remove();
		w.dispose();
	});
});
