// C07: all elements bound to one source agree, and every operation reaches that
// source exactly once.
import { suite } from "../lib/core";
import { fleetCases, SHARED_KINDS } from "../lib/fleetcheck";

export default suite(async (t) => {
	await fleetCases(t, { group: "history", quick: 300, thorough: 6000, kinds: SHARED_KINDS, tags: ["consistency", "effect", "error"], start: 3, weights: { create: 2, html: 2, connect: 5, disconnect: 2, drain: 0.3 } });
	// Two component factories over one source, several tags each.
	await fleetCases(t, { group: "two-factories", quick: 120, thorough: 2500, kinds: SHARED_KINDS, tags: ["consistency", "effect", "error"], start: 4, options: { factories: 2, tags: 2 } });
});
