// C10: an element that was removed, reinserted or moved is as alive as one that
// never left.
import { suite, violate } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";
import { Fleet } from "../lib/fleet";
import { genOp } from "../lib/worlds";

export default suite(async (t) => {
	const back = (m: string) => /reconnected/.test(m);
	await fleetCases(t, {
		group: "history",
		quick: 260,
		thorough: 5000,
		kinds: KINDS,
		tags: ["view", "effect", "facade", "context", "subs", "error"],
		weights: { disconnect: 5, connect: 8, move: 4, drain: 1, create: 1, html: 0.5 },
		start: 2,
		filter: (p) => p.tag !== "view" || back(p.msg),
	});
	// Every element in turn: leave, come back, and be operated through each route.
	await t.cases("routes", t.scale(64, 1200), (rng, i, c) => {
		const kind = KINDS[i % KINDS.length];
		const f = new Fleet({ kind, renderer: rng.bool() ? "ignite-jsx" : "lit", cleanup: rng.pick([undefined, true, false]), strategy: rng.pick(["diff", "replace"]) });
		const members = Array.from({ length: rng.range(1, 3) }, () => f.create());
		for (const m of members) f.connect(m);
		const judge = (step: string, m?: Parameters<Fleet["check"]>[0]) => {
			c.note(step);
			for (const p of f.check(m)) violate(`[${kind}/${f.o.renderer}] after ${step}: ${p.msg}`, { cleanup: f.o.cleanup });
		};
		for (let round = rng.range(1, 4); round > 0; round--) {
			const m = rng.pick(members);
			const others = rng.bool(0.5);
			if (others) for (const x of members) f.disconnect(x);
			else f.disconnect(m);
			judge("leaving", m);
			if (f.world.direct && rng.bool()) f.act("direct", genOp(rng, f.shared));
			if (others) for (const x of members) f.connect(x, rng.int(3));
			else f.connect(m, rng.int(3));
			judge("returning", m);
			for (const route of rng.shuffle(["dom-send", "arg-send", "command", "click-command", "click-send"] as const as never) as Array<"dom-send">) {
				f.act(route, { op: "add", k: 1 }, m);
				judge(`return + ${route}`, m);
				t.observe("routes-after-return");
			}
			if (f.world.direct) {
				f.act("direct", genOp(rng, f.shared));
				judge("return + direct");
			}
		}
		t.distinct(`routes/${kind}/${f.o.renderer}/${String(f.o.cleanup)}/${members.length}/${c.log.length}`);
		f.dispose();
	});
});
