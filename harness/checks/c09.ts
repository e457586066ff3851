// C09: Ignite stops exactly what it created. A source the user handed over
// stays alive and fully usable; a private one is stopped once, when its element
// leaves, and never before.
import { suite, violate } from "../lib/core";
import { fleetCases, ISOLATED_KINDS, SHARED_KINDS } from "../lib/fleetcheck";
import { applyOp, show } from "../lib/worlds";

export default suite(async (t) => {
	const weights = { disconnect: 4, connect: 5, move: 2, drain: 1.5 };
	await fleetCases(t, {
		group: "user-owned",
		quick: 240,
		thorough: 5000,
		kinds: SHARED_KINDS,
		tags: ["owner", "error"],
		weights,
		start: 1,
		after: (f) => {
			// After every element is gone the user's source still works.
			for (const m of f.members) if (m.connected) f.disconnect(m);
			const before = f.shared;
			for (const o of [{ op: "add", k: 5 }, { op: "label", s: "after" }] as const) {
				f.world.direct?.(o);
				f.shared = applyOp(f.shared, o);
			}
			const now = show((f.world.truth as () => never)());
			if (now !== show(f.shared)) violate(`[${f.o.kind}] after all elements left, the user's source went from ${show(before)} to ${now} instead of ${show(f.shared)}`);
			if (f.world.watches[0].stops > 0) violate(`[${f.o.kind}] the user's source was stopped`);
			t.observe("sources-outliving-elements");
		},
	});
	await fleetCases(t, {
		group: "private",
		quick: 240,
		thorough: 5000,
		kinds: ["xstate-machine", "xstate-machine", ...ISOLATED_KINDS],
		tags: ["owner", "subs", "error"],
		weights,
		start: 1,
		after: (f) => {
			for (const m of f.members) if (m.connected) f.disconnect(m);
			if (f.o.kind !== "xstate-machine") return;
			const waiting = f.members.filter((m) => !m.everConnected).map((m) => m.watch);
			for (const w of f.world.watches) {
				if (w.started === 0 || waiting.includes(w)) continue;
				t.observe("private-actors");
				if (w.started - w.stops !== 0) violate("a private actor is still running after every element left");
				if (w.stops !== 1) violate(`a private actor was stopped ${w.stops} times`);
			}
		},
	});
});
