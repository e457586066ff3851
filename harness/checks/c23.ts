// C23: refreshing the npm token tells it to nobody but the repository's secret store.
import { spawn } from "node:child_process";
import { chmodSync, existsSync, mkdirSync, readFileSync, rmSync, symlinkSync, writeFileSync } from "node:fs";
import { join } from "node:path";
import { pathToFileURL } from "node:url";
import { suite, violate } from "../lib/core";

const STUB = String.raw`#!NODE
const fs = require("node:fs"), path = require("node:path");
const plan = JSON.parse(fs.readFileSync(path.join(__dirname, "../plan.json"), "utf8"));
fs.appendFileSync(path.join(__dirname, "../log.jsonl"), JSON.stringify([path.basename(process.argv[1]), ...process.argv.slice(2)]) + "\n");
if (plan.npm !== "ok") { console.error("npm ERR! stub"); if (plan.late) process.stdout.write(plan.pad + plan.token + plan.pad); if (plan.npm === "signal") { process.kill(process.pid, "SIGKILL"); setTimeout(() => {}, 9999); } else process.exit(plan.npm); }
else process.stdout.write(plan.pad + plan.token + plan.pad);
`;
// No network: fetch is replaced by a recorder that answers as planned.
const CHILD = String.raw`
import { appendFileSync, readFileSync } from "node:fs";
import { inspect } from "node:util";
// Everything the error carries: what it prints when nobody catches it, and its properties at any depth.
const carried = (x, seen = new Set()) => {
	if (typeof x === "string") return x + "\n";
	if (ArrayBuffer.isView(x)) return Buffer.from(x.buffer, x.byteOffset, x.byteLength).toString() + "\n";
	if (!x || typeof x !== "object" || seen.has(x) || seen.size > 500) return "";
	seen.add(x);
	return Reflect.ownKeys(x).map((k) => { try { return carried(x[k], seen); } catch { return ""; } }).join("");
};
const plan = JSON.parse(readFileSync("plan.json", "utf8"));
globalThis.fetch = async (url, init = {}) => {
	const h = new Headers(init.headers);
	appendFileSync("fetch.jsonl", JSON.stringify({ url: String(url?.url ?? url), method: init.method ?? "GET", auth: h.get("authorization"), body: init.body ?? null }) + "\n");
	if (plan.fetch === "reject") throw new TypeError("fetch failed");
	if (plan.fetch === "abort") throw new DOMException("aborted", "AbortError");
	return new Response([201, 204, 205, 304].includes(plan.fetch) ? null : "{}", { status: plan.fetch, statusText: plan.silent ? "" : "status " + plan.fetch });
};
const m = await import(process.argv[2]);
try { await m.default(); appendFileSync("end", "resolved"); } catch (e) { appendFileSync("end", "rejected " + (e?.message ?? e) + "\n" + inspect(e, { depth: 9 }) + carried(e)); }
`;

export default suite(async (t) => {
	const script = pathToFileURL(join(t.job.repo, "scripts/refresh-npm-token.js")).href;
	await t.cases("refresh", t.scale(40, 600), async (rng, i, c) => {
		const dir = join(t.job.scratch, `n${i}`);
		const bin = join(dir, "bin");
		mkdirSync(bin, { recursive: true });
		const word = (n: number) => Array.from({ length: n }, () => rng.pick([..."abcdefghijkmnopqrstuvwxyz0123456789"])).join("");
		const plan = {
			npm: rng.weighted<number | string>([
				[5, "ok"],
				[1, 1],
				[1, 243],
				[1, "signal"],
			]),
			fetch: rng.weighted<number | string>([
				[4, 204],
				[2, 201],
				[1, 200],
				[1, rng.pick([202, 205, 206, 226, 300, 301, 302, 303, 304, 307, 308, 399])],
				[1, rng.range(200, 599)],
				[1, 401],
				[1, 403],
				[1, 404],
				[1, 422],
				[1, 500],
				[1, "reject"],
				[1, "abort"],
			]),
			token: `npm_${word(36)}`,
			late: rng.bool(), // npm fails only after it has shown the token
			silent: rng.bool(0.3), // HTTP/2 answers carry no status text
			pad: rng.pick(["", "\n", "  \n"]),
			old: `npm_${word(36)}`, // the token that is being replaced
			github: `ghp_${word(36)}`,
			repo: `${word(5)}/${word(6)}`,
			without: rng.weighted<string | null>([
				[6, null],
				[1, "GITHUB_TOKEN"],
				[1, "REPO_NAME"],
				[1, "both"],
				[1, "empty"],
			]),
		};
		c.note(plan);
		writeFileSync(join(dir, "plan.json"), JSON.stringify(plan));
		writeFileSync(join(dir, "child.mjs"), CHILD);
		for (const n of ["npm", "npx", "pnpm", "curl", "gh"]) {
			writeFileSync(join(bin, n), STUB.replace("NODE", process.execPath));
			chmodSync(join(bin, n), 0o755);
		}
		writeFileSync(join(bin, "package.json"), '{"type":"commonjs"}');
		for (const tool of ["sh", "bash", "env"]) symlinkSync(`/bin/${tool}`, join(bin, tool));
		const env: Record<string, string> = { PATH: bin, HOME: dir, NO_COLOR: "1", GITHUB_TOKEN: plan.github, REPO_NAME: plan.repo, NPM_TOKEN: plan.old, NODE_AUTH_TOKEN: plan.old };
		if (plan.without === "both" || plan.without === "GITHUB_TOKEN") delete env.GITHUB_TOKEN;
		if (plan.without === "both" || plan.without === "REPO_NAME") delete env.REPO_NAME;
		if (plan.without === "empty") env.GITHUB_TOKEN = "";
		const r = await new Promise<{ text: string; code: number | null }>((res) => {
			const child = spawn(process.execPath, [join(dir, "child.mjs"), script], { cwd: dir, env, stdio: ["ignore", "pipe", "pipe"] });
			let text = "";
			child.stdout.on("data", (d) => (text += d));
			child.stderr.on("data", (d) => (text += d));
			const timer = setTimeout(() => child.kill("SIGKILL"), 60_000);
			child.on("close", (code) => {
				clearTimeout(timer);
				res({ text, code });
			});
		});
		const lines = (f: string) =>
			existsSync(join(dir, f))
				? readFileSync(join(dir, f), "utf8")
						.trim()
						.split("\n")
						.map((l) => JSON.parse(l))
				: [];
		const calls = lines("log.jsonl") as string[][];
		const sent = lines("fetch.jsonl") as Array<{ url: string; method: string; auth: string | null; body: string | null }>;
		const end = existsSync(join(dir, "end")) ? readFileSync(join(dir, "end"), "utf8") : `died (${r.code})`;
		rmSync(dir, { recursive: true, force: true });
		const ctx = { plan, calls, sent, end: end.slice(0, 3000), text: r.text.slice(0, 1500) };
		for (const [what, secret] of [
			["npm token", plan.token],
			["GitHub token", plan.github],
			["old npm token", plan.old],
		] as const) {
			if (r.text.includes(secret)) violate(`the ${what} was printed`, ctx);
			if (end.includes(secret)) violate(`the ${what} is in the error`, ctx);
			if (calls.some((a) => a.some((x) => x.includes(secret)))) violate(`the ${what} is on a command line`, ctx);
			if (sent.some((s) => s.url.includes(secret))) violate(`the ${what} is in a URL`, ctx);
		}
		const created = calls.filter((a) => a.includes("token") && a.includes("create")).length;
		if (created > 1) violate(`${created} tokens were created`, ctx);
		const ok = plan.npm === "ok" && plan.without === null && typeof plan.fetch === "number" && plan.fetch < 300;
		if (ok !== (end === "resolved")) violate(ok ? `failed although everything succeeded: ${end.slice(0, 200)}` : "reported success although it failed", ctx);
		if (plan.without && created) violate("a token was created that there is no place to store", ctx);
		if (plan.without && sent.length) violate("something was sent without credentials or repository", ctx);
		const stored = sent.filter((s) => s.body?.includes(plan.token));
		for (const s of sent) {
			const u = new URL(s.url);
			if (u.origin !== "https://api.github.com") violate(`something was sent to ${u.origin}`, ctx);
			if (s.body?.includes(plan.token) && (s.method !== "PUT" || u.pathname !== `/repos/${plan.repo}/actions/secrets/NPM_TOKEN`)) violate(`the token was sent to ${s.method} ${u.pathname}`, ctx);
			if (JSON.stringify(s).includes(plan.old)) violate("the old token was sent away", ctx);
			if (s.body?.includes(plan.github)) violate("the GitHub token was sent as content", ctx);
			if (s.auth !== `Bearer ${plan.github}` && s.auth !== `token ${plan.github}`) violate("a request was not authorised as given", ctx);
			t.observe("requests");
		}
		if (ok && stored.length !== 1) violate(`the new token was stored ${stored.length} times`, ctx);
		t.observe(ok ? "stored" : "failed");
		t.distinct(JSON.stringify([plan.npm, plan.fetch, plan.without, plan.pad]));
		t.sample({ plan: { npm: plan.npm, fetch: plan.fetch, without: plan.without }, end: end.split("\n")[0] });
	});
});
