// C08: a disconnected element is inert and holds no subscription; connected ones
// hold no more than one.
import { suite } from "../lib/core";
import { fleetCases, KINDS } from "../lib/fleetcheck";

export default suite(async (t) => {
	const weights = { disconnect: 4, connect: 5, move: 2, drain: 1, dead: 3, create: 2 };
	await fleetCases(t, { group: "history", quick: 260, thorough: 5000, kinds: KINDS, tags: ["inert", "subs", "error"], weights, start: 1 });
	await fleetCases(t, { group: "churn", quick: 48, thorough: 800, kinds: KINDS, tags: ["inert", "subs", "error"], weights: { ...weights, connect: 20, disconnect: 20, move: 8, drain: 3 }, steps: [60, 160], start: 2 });
});
