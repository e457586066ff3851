// Shared body of the checks that judge fleet histories; each property reports
// only the monitors that decide it.
import { type Rng, type T, violate } from "./core";
import { drive, Fleet, type FleetOptions, type History, type Problem } from "./fleet";
import { ISOLATED_KINDS, KINDS, type Kind, SHARED_KINDS } from "./worlds";

export type FleetCheck = {
	group: string;
	quick: number;
	thorough: number;
	kinds: readonly Kind[];
	tags: Array<Problem["tag"]>;
	weights?: History["weights"];
	steps?: [number, number];
	options?: Partial<FleetOptions>;
	vary?: (rng: Rng) => Partial<FleetOptions>;
	filter?: (p: Problem, step: string) => boolean;
	/** Extra monitors at the end of each case. */
	after?: (f: Fleet) => void;
	start?: number;
};

export async function fleetCases(t: T, c: FleetCheck): Promise<void> {
	await t.cases(c.group, t.scale(c.quick, c.thorough), (rng, i, cs) => {
		const kind = c.kinds[i % c.kinds.length];
		const options: FleetOptions = {
			kind,
			renderer: rng.bool(0.6) ? "ignite-jsx" : "lit",
			cleanup: rng.pick([undefined, true, false]),
			tags: rng.range(1, 2),
			factories: SHARED_KINDS.includes(kind) && rng.bool(0.3) ? 2 : 1,
			prestarted: rng.bool(0.7),
			strategy: rng.pick(["diff", "diff", "replace"]),
			shape: rng.pick(["fn", "fn", "object", "class"]),
			...c.options,
			...(c.vary?.(rng) ?? {}),
		};
		cs.note(options);
		const f = new Fleet(options);
		for (let k = 0; k < (c.start ?? 0); k++) f.connect(f.create("create", rng.pick(f.tags)), rng.int(3));
		const [lo, hi] = c.steps ?? [6, 40];
		const trace = drive(rng, f, { steps: rng.range(lo, hi), weights: c.weights }, (x) => cs.note(x), (problems, step) => {
			t.observe("quiescent-points");
			for (const p of problems) {
				if (p.tag === "error" ? c.tags.includes("error") : c.tags.includes(p.tag)) {
					if (c.filter && !c.filter(p, step)) continue;
					violate(`[${kind}/${options.renderer}] after ${step}: ${p.msg}`, { options, problem: p });
				}
			}
		});
		c.after?.(f);
		t.observe("operations", f.stats.ops);
		t.observe("screens-compared", f.stats.screens);
		t.observe("renders", f.stats.renders);
		t.observe("lifecycle-transitions", f.stats.lifecycle);
		t.observe(`histories:${kind}`);
		if (f.stats.ops > 0 && f.stats.lifecycle > 0) t.distinct(`${kind}/${options.renderer}/${String(options.cleanup)}/${trace.map((x) => x.replace(/:.*$/, "")).join(" ")}`);
		t.sample({ kind, renderer: options.renderer, trace: trace.slice(0, 25) });
		f.dispose();
	});
}
export { ISOLATED_KINDS, KINDS, SHARED_KINDS };
