// C11: the contract every adapter keeps: current state on subscription, every
// change once and in order, silence after unsubscribe/stop, a frozen last state
// and no effect on the source once stopped.
import createMobXAdapter from "@repo/src/adapters/MobxAdapter";
import createReduxAdapter from "@repo/src/adapters/ReduxAdapter";
import createXStateAdapter from "@repo/src/adapters/XStateAdapter";
import { assign, createActor, createMachine } from "xstate";
import { drainReported, suite, violate, withConsole } from "../lib/core";
import { applyOp, genOp, initialModel, KINDS, type Kind, makeWorld, type Model, type Op, show, type Watch } from "../lib/worlds";

type Any = any;
type Sub = { id: number; a: Ad; got: Array<{ state: Any; text: string }>; seen: number; active: boolean; handle: Any; onDeliver?: (s: Any) => void };
type Ad = { id: number; adapter: Any; actor: Any; watch?: Watch; stopped: boolean; last: string; model: Model };

const factoryOf = (kind: Kind): Any => (kind.startsWith("xstate") ? createXStateAdapter : kind.startsWith("redux") ? createReduxAdapter : createMobXAdapter);

export default suite(async (t) => {
	await t.cases("contract", t.scale(400, 8000), (rng, i, c) => withConsole(() => {
		const kind = KINDS[i % KINDS.length];
		const w = makeWorld(kind, { prestarted: rng.bool(0.7) });
		const ads: Ad[] = [];
		// somebody who listened to the source before the adapters did, and asks them about it
		let wrong: string | undefined;
		const peek = rng.bool(0.3) && w.onChange;
		const forget = peek ? peek(() => {
			for (const a of ads) {
				if (a.stopped) continue;
				const got = show(w.read(a.adapter.getState()));
				const want = show((w.truth as () => Model)());
				t.observe("state-reads");
				if (got !== want) wrong ??= `an adapter asked during a change reports ${got}, the source holds ${want}`;
			}
		}) : () => {};
		const factory = factoryOf(kind)(w.source);
		const subs: Sub[] = [];
		let shared = initialModel();
		const lazy = rng.pick([0, 0.5, 0.9]);
		const trace: string[] = [];
		const where = () => `[${kind}] after ${trace.slice(-3).join("; ")}`;
		const modelOf = (a: Ad): Model => (w.shared ? shared : a.model);
		const truthOf = (a: Ad): Model => (w.shared ? (w.truth as () => Model)() : w.truthOf(a.actor, a.watch));
		const make = () => {
			const before = w.watches.length;
			const adapter = factory();
			const known = ads.find((x) => x.adapter === adapter);
			if (known) {
				if (known.stopped) violate(`${where()}: the factory handed out a stopped adapter`);
				return;
			}
			ads.push({ id: ads.length, adapter, actor: factory.resolveCommandActor(adapter), watch: w.watches.length > before ? w.watches[w.watches.length - 1] : undefined, stopped: false, last: "", model: initialModel() });
		};
		const settle = (changed: boolean, affected: (a: Ad) => boolean) => {
			if (wrong) violate(`${where()}: ${wrong}`);
			for (const s of subs) {
				const fresh = s.got.slice(s.seen);
				s.seen = s.got.length;
				t.observe("deliveries", fresh.length);
				if (!s.active) {
					if (fresh.length) violate(`${where()}: a listener heard ${fresh.length} change(s) after it was unsubscribed or its adapter stopped`);
					continue;
				}
				const want = show(modelOf(s.a));
				if (changed && affected(s.a) && fresh.length !== 1) violate(`${where()}: listener ${s.id} heard one change ${fresh.length} time(s)`);
				if (!changed && fresh.length > 1) violate(`${where()}: listener ${s.id} heard ${fresh.length} notifications for one operation`);
				if (!affected(s.a) && fresh.length) violate(`${where()}: listener ${s.id} of an unrelated adapter was notified`);
				for (const f of fresh) if (f.text !== want) violate(`${where()}: listener ${s.id} heard ${f.text}, the source holds ${want}`);
			}
			for (const s of subs) for (const g of s.got.slice(-4)) if (show(w.read(g.state)) !== g.text) violate(`${where()}: a state delivered earlier (${g.text}) changed under the listener to ${show(w.read(g.state))}`);
			for (const a of ads) {
				// asking is itself an operation: not after every step
				if (rng.bool(lazy)) continue;
				const got = show(w.read(a.adapter.getState()));
				const want = a.stopped ? a.last : show(modelOf(a));
				t.observe("state-reads");
				if (got !== want) violate(`${where()}: ${a.stopped ? "stopped" : "live"} adapter reports ${got}, expected ${want}`);
				if (!a.stopped && show(truthOf(a)) !== want) violate(`${where()}: source holds ${show(truthOf(a))}, history says ${want}`);
			}
		};
		make();
		settle(false, () => false);
		for (let step = rng.range(6, 45); step > 0; step--) {
			const a = rng.pick(ads);
			const act = rng.weighted<string>([[3, "subscribe"], [2, "unsubscribe"], [6, "send"], [3, "direct"], [1, "batch"], [0.7, "stop"], [1, "make"], [1.2, "dead-send"], [0.8, "dead-subscribe"], [0.5, "again-stop"]]);
			const op: Op = genOp(rng, modelOf(a));
			const apply = (target: Ad, o: Op): boolean => {
				const before = show(modelOf(target));
				if (w.shared) shared = applyOp(shared, o);
				else target.model = applyOp(target.model, o);
				return before !== show(modelOf(target));
			};
			const reach = (target: Ad) => (x: Ad) => w.shared || x === target;
			switch (act) {
				case "make":
					if (ads.length < 4) {
						trace.push("make");
						make();
						settle(false, () => true);
					}
					break;
				case "subscribe": {
					if (a.stopped || subs.length > 12) break;
					trace.push(`subscribe@${a.id}`);
					const s: Sub = { id: subs.length, a, got: [], seen: 0, active: true, handle: null };
					s.handle = a.adapter.subscribe((state: Any) => {
						s.got.push({ state, text: show(w.read(state)) });
					});
					if (s.got.length !== 1) violate(`${where()}: a new listener was called ${s.got.length} time(s) on subscription`);
					if (s.got[0].text !== show(modelOf(a))) violate(`${where()}: a new listener was first told ${s.got[0].text}, the source holds ${show(modelOf(a))}`);
					s.seen = 1;
					t.observe("deliveries");
					subs.push(s);
					settle(false, () => true);
					break;
				}
				case "unsubscribe": {
					const live = subs.filter((s) => s.handle && (s.active || rng.bool(0.2)));
					if (!live.length) break;
					const s = rng.pick(live);
					trace.push(`unsubscribe#${s.id}`);
					s.handle.unsubscribe();
					if (rng.bool(0.3)) s.handle.unsubscribe();
					s.active = false;
					settle(false, () => true);
					break;
				}
				case "send":
					if (a.stopped) break;
					trace.push(`send@${a.id}:${op.op}`);
					a.adapter.send(w.event(op));
					settle(apply(a, op), reach(a));
					break;
				case "direct":
					trace.push(`direct:${op.op}`);
					if (w.direct) {
						w.direct(op);
						settle(apply(a, op), () => true);
					} else if (!a.stopped) {
						w.viaActor(a.actor, op);
						settle(apply(a, op), reach(a));
					}
					break;
				case "batch":
					if (!w.batch) break;
					trace.push(`batch:${op.op}`);
					w.batch([op, op]);
					{
						const before = show(shared);
						shared = applyOp(applyOp(shared, op), op);
						settle(before !== show(shared), () => true);
					}
					break;
				case "stop":
				case "again-stop":
					if (act === "again-stop" ? !a.stopped : a.stopped) break;
					trace.push(`stop@${a.id}`);
					if (!a.stopped) a.last = show(modelOf(a));
					a.adapter.stop();
					a.stopped = true;
					for (const s of subs) if (s.a === a) s.active = false;
					settle(false, () => true);
					if (!ads.some((x) => !x.stopped)) make();
					t.observe("stops");
					break;
				case "dead-send":
					if (!a.stopped) break;
					trace.push(`dead-send@${a.id}:${op.op}`);
					{
						const before = w.shared ? show((w.truth as () => Model)()) : "";
						a.adapter.send(w.event(op));
						if (w.shared && show((w.truth as () => Model)()) !== before) violate(`${where()}: a stopped adapter still changed the source`);
						settle(false, () => true);
						t.observe("sends-after-stop");
					}
					break;
				case "dead-subscribe":
					if (!a.stopped) break;
					trace.push(`dead-subscribe@${a.id}`);
					{
						const s: Sub = { id: subs.length, a, got: [], seen: 0, active: false, handle: null };
						try {
							a.adapter.subscribe((state: Any) => s.got.push({ state, text: show(w.read(state)) }));
						} catch {
							// refusing is fine, delivering is not
						}
						subs.push(s);
						settle(false, () => true);
					}
					break;
			}
		}
		c.note(trace);
		t.observe(`histories:${kind}`);
		t.distinct(`${kind}/${trace.map((x) => x.replace(/:.*/, "")).join()}`);
		t.sample({ kind, trace: trace.slice(0, 20) });
		for (const a of ads) if (!a.stopped) a.adapter.stop();
		forget();
		w.dispose();
	}));

	// Listeners that act while being notified.
	await t.cases("reentrant", t.scale(160, 3000), (rng, i, c) => withConsole(() => {
		const kind = KINDS[i % KINDS.length];
		const w = makeWorld(kind);
		const factory = factoryOf(kind)(w.source);
		const adapter = factory();
		const actor = factory.resolveCommandActor(adapter);
		const add = () => (rng.bool() ? adapter.send(w.event({ op: "add", k: 1 })) : w.viaActor(actor, { op: "add", k: 1 }));
		let sent = 0;
		const n = rng.range(1, 4);
		const heard: number[][] = [];
		const handles: Any[] = [];
		const active: boolean[] = [];
		const late: number[] = [];
		const behaviours: string[] = [];
		for (let k = 0; k < n; k++) {
			const b = rng.pick(["plain", "sender", "quitter", "killer", "plain", "greeter"]);
			behaviours.push(b);
			heard.push([]);
			active.push(true);
			late.push(0);
			handles.push(
				adapter.subscribe((s: Any) => {
					const v = w.read(s).n;
					if (!active[k]) late[k] += 1;
					heard[k].push(v);
					if ((b === "sender" && v % 4 === 1 && sent < 12) || (b === "greeter" && heard[k].length === 1)) {
						sent += 1;
						add();
					}
					if (b === "quitter" && v >= 2 && active[k] && handles[k]) {
						active[k] = false;
						handles[k].unsubscribe();
					}
					if (b === "killer" && v >= 3) {
						const other = (k + 1) % n;
						if (other !== k && handles[other] && active[other]) {
							active[other] = false;
							handles[other].unsubscribe();
						}
					}
				}),
			);
		}
		const steps = rng.range(3, 12);
		for (let k = -1; k < steps; k++) {
			if (k >= 0) {
				sent += 1;
				add();
			}
			const truth = w.read(adapter.getState()).n;
			if (truth !== sent) violate(`[${kind}] ${sent} increments were sent, the source holds ${truth} (${behaviours})`);
			for (let j = 0; j < n; j++) {
				t.observe("deliveries", heard[j].length);
				for (let q = 1; q < heard[j].length; q++) if (heard[j][q] < heard[j][q - 1]) violate(`[${kind}] listener ${j} (${behaviours}) heard states out of order: ${heard[j]}`);
				if (active[j] && heard[j][heard[j].length - 1] !== truth) violate(`[${kind}] listener ${j} (${behaviours}) last heard ${heard[j][heard[j].length - 1]}, the source holds ${truth}`);
				if (late[j]) violate(`[${kind}] listener ${j} (${behaviours}) was called after it had unsubscribed`);
			}
		}
		c.note({ kind, behaviours, heard });
		t.distinct(`re/${kind}/${behaviours}/${steps}`);
		adapter.stop();
		w.dispose();
	}));

	// A machine that comes to its end: the last state is delivered like any other, later
	// listeners are told it, and nothing sent afterwards changes or delivers anything.
	await t.cases("ending", t.scale(80, 1500), (rng, i, c) => withConsole(() => {
		const length = rng.range(1, 5);
		const machine = createMachine({
			context: { n: 0 },
			initial: "going",
			states: {
				going: { on: { ADD: [{ guard: (({ context }: Any) => context.n + 1 >= length) as never, target: "over", actions: assign({ n: ({ context }: Any) => context.n + 1 }) as never }, { actions: assign({ n: ({ context }: Any) => context.n + 1 }) as never }] } },
				over: { type: "final" },
			},
		} as never);
		const given = i % 2 === 0;
		const actor = given ? createActor(machine as never) : null;
		if (rng.bool(0.7)) actor?.start();
		const adapter = (createXStateAdapter as Any)(actor ?? machine)();
		const subs: Array<{ got: string[]; handle: Any; active: boolean; seen: number }> = [];
		let n = 0;
		let stopped = false;
		const trace: string[] = [];
		const now = () => JSON.stringify([n, n >= length ? "over" : "going"]);
		const read = (s: Any) => JSON.stringify([s.n, s.value]);
		for (let step = rng.range(6, 24); step > 0; step--) {
			const act = rng.weighted<string>([[3, "subscribe"], [6, "add"], [1, "unsubscribe"], [n >= length ? 0.7 : 0, "stop"]]);
			trace.push(act);
			let told = 0;
			if (act === "subscribe") {
				if (stopped || subs.length > 6) continue;
				const sub = { got: [] as string[], handle: null as Any, active: true, seen: 0 };
				sub.handle = adapter.subscribe((s: Any) => void sub.got.push(read(s)));
				if (sub.got.length !== 1 || sub.got[0] !== now()) violate(`a listener that subscribed ${n >= length ? "after the end" : "before the end"} was first told ${sub.got.join(" ") || "nothing"}, the machine holds ${now()}`, { trace });
				sub.seen = 1;
				subs.push(sub);
			} else if (act === "unsubscribe") {
				const sub = subs.length ? rng.pick(subs) : null;
				sub?.handle.unsubscribe();
				if (sub) sub.active = false;
			} else if (act === "stop") {
				adapter.stop();
				stopped = true;
				for (const sub of subs) sub.active = false;
			} else {
				if (n < length && !stopped) {
					n += 1;
					told = 1;
				}
				if (actor && !stopped && rng.bool(0.3)) actor.send({ type: "ADD" } as never);
				else adapter.send({ type: "ADD" });
			}
			for (const sub of subs) {
				const fresh = sub.got.slice(sub.seen);
				sub.seen = sub.got.length;
				t.observe("deliveries", fresh.length);
				if (fresh.length !== (sub.active ? told : 0)) violate(`${sub.active ? "a" : "a former"} listener heard ${fresh.length} change(s) of ${told}, the machine holds ${now()}`, { trace });
				if (fresh.some((x) => x !== now())) violate(`a listener heard ${fresh}, the machine holds ${now()}`, { trace });
			}
			t.observe("state-reads");
			if (read(adapter.getState()) !== now()) violate(`the adapter reports ${read(adapter.getState())}, the machine holds ${now()}`, { trace });
		}
		c.note({ given, length, trace });
		const errors = drainReported();
		if (errors.length) violate(String((errors[0] as Error)?.stack ?? errors[0]).slice(0, 300), { trace });
		t.distinct(`end/${given}/${length}/${trace.join()}`);
		if (n >= length) t.observe("endings");
		adapter.stop();
	}));
});
