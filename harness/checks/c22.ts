// C22: the beta release publishes only after every earlier step succeeded.
import { spawn } from "node:child_process";
import { chmodSync, existsSync, mkdirSync, readFileSync, rmSync, symlinkSync, writeFileSync } from "node:fs";
import { join } from "node:path";
import { type Rng, suite, violate } from "../lib/core";

// Stand-ins for git, npm, pnpm, npx, yarn: they only record the call and end as planned.
const STUB = String.raw`#!NODE
const fs = require("node:fs"), path = require("node:path");
const plan = JSON.parse(fs.readFileSync(path.join(__dirname, "../plan.json"), "utf8"));
const name = path.basename(process.argv[1]);
const args = process.argv.slice(2);
const key = [name, ...args].join(" ");
const step = /^git status --porcelain/.test(key) ? "clean" : /^git status/.test(key) ? "show" : /^npm whoami/.test(key) ? "auth" : /changeset status/.test(key) ? "status" : /changeset version/.test(key) ? "version" : /changeset publish|(^| )publish/.test(key) ? "publish" : /(^| )install/.test(key) ? "install" : /^\w+ (run )?build/.test(key) ? "build" : /^\w+ (run )?test/.test(key) ? "test" : "other";
fs.appendFileSync(path.join(__dirname, "../log.jsonl"), JSON.stringify({ step, key, otp: process.env.NPM_CONFIG_OTP ?? null }) + "\n");
if (step === "clean" && plan.dirty) {
	const lines = plan.dirty.split("\n").filter((l) => !(l.startsWith("??") && args.some((a) => /^(-uno|--untracked-files=no)$/.test(a))));
	if (lines.length) console.log(lines.join("\n"));
}
if (step === "auth") console.log("someone");
if (step === plan.fail) {
	if (typeof plan.how === "string") {
		// the shell that started this step, if there is one, is interrupted with it
		let shell = "";
		try { shell = fs.readFileSync("/proc/" + process.ppid + "/comm", "utf8").trim(); } catch {}
		if (/^(sh|bash|dash)$/.test(shell)) process.kill(process.ppid, plan.how);
		process.kill(process.pid, plan.how);
		setTimeout(() => {}, 10000);
	}
	else { console.error("stub failure"); process.exit(plan.how); }
}
`;
const STEPS = ["clean", "auth", "status", "test", "build", "version", "install", "publish"] as const;
/** Ways a step fails: an exit code, or the signal that ended it. */
const HOWS = [1, 2, 127, 255, "SIGKILL", "SIGTERM", "SIGINT", "SIGHUP"] as const;
type How = number | (typeof HOWS)[number];

export default suite(async (t) => {
	const script = join(t.job.repo, "scripts/release-beta.mjs");
	const run = async (rng: Rng, i: number, plan: { fail: string | null; how: How; dirty: string | null; missing: string | null }, c: { note(x: unknown): void }) => {
		const dir = join(t.job.scratch, `r${i}-${rng.int(1e9)}`);
		const bin = join(dir, "bin");
		mkdirSync(bin, { recursive: true });
		writeFileSync(join(dir, "plan.json"), JSON.stringify(plan));
		for (const name of ["git", "npm", "pnpm", "npx", "yarn", "corepack"]) {
			if (name === plan.missing) continue;
			writeFileSync(join(bin, name), STUB.replace("NODE", process.execPath));
			chmodSync(join(bin, name), 0o755);
		}
		writeFileSync(join(bin, "package.json"), '{"type":"commonjs"}');
		for (const tool of ["sh", "bash", "env"]) symlinkSync(`/bin/${tool}`, join(bin, tool));
		const secret = String(rng.range(100000, 999999));
		const otpBy = rng.pick(["flag", "env", "prompt", "blank", "skip", "eof"] as const);
		const dry = rng.bool(0.4);
		const args = rng.shuffle([...(otpBy === "flag" ? [`--otp=${secret}`] : []), ...(otpBy === "skip" ? ["--skip-otp"] : []), ...(dry ? ["--dry-run"] : [])]);
		const ci = rng.bool(0.3);
		c.note({ plan, otpBy, dry, args, ci });
		const env: Record<string, string> = { PATH: bin, HOME: dir, NO_COLOR: "1" };
		if (ci) env.CI = "true";
		if (otpBy === "env") env.NPM_CONFIG_OTP = secret;
		const r = await new Promise<{ code: number | null; text: string; hung: boolean }>((res) => {
			const child = spawn(process.execPath, [script, ...args], { cwd: dir, env, stdio: ["pipe", "pipe", "pipe"] });
			let text = "";
			let hung = false;
			let answered = false;
			const on = (d: Buffer) => {
				text += d;
				if (!answered && /password|otp/i.test(text.split("\n").pop() ?? "")) {
					answered = true;
					if (otpBy === "prompt") child.stdin.write(`${secret}\n`);
					else if (otpBy === "eof") child.stdin.end();
					else child.stdin.write("\n");
				}
			};
			child.stdout.on("data", on);
			child.stderr.on("data", on);
			child.stdin.on("error", () => {});
			const timer = setTimeout(() => {
				hung = true;
				child.kill("SIGKILL");
			}, 60_000);
			child.on("close", (code) => {
				clearTimeout(timer);
				res({ code, text, hung });
			});
		});
		const log = existsSync(join(dir, "log.jsonl"))
			? readFileSync(join(dir, "log.jsonl"), "utf8")
					.trim()
					.split("\n")
					.map((l) => JSON.parse(l) as { step: string; key: string; otp: string | null })
			: [];
		rmSync(dir, { recursive: true, force: true });
		const steps = log.map((l) => l.step).filter((s) => s !== "show" && s !== "other");
		const ctx = { plan, otpBy, dry, ci, steps, code: r.code, text: r.text.slice(-1200) };
		if (r.hung) violate("the release hangs", ctx);

		// Which step must be the last one, and is the release to succeed?
		const missingAt = plan.missing === "git" ? "clean" : plan.missing === "npm" ? "auth" : plan.missing === "pnpm" ? "status" : null;
		const obstacles = [plan.dirty ? "clean" : null, plan.fail, missingAt].filter(Boolean) as string[];
		const stop = STEPS.find((s) => obstacles.includes(s)) ?? null;
		const eof = otpBy === "eof" && (stop === null || stop === "publish");
		for (const s of STEPS) if (steps.filter((x) => x === s).length > 1) violate(`step ${s} ran more than once`, ctx);
		const published = steps.includes("publish");
		if (published) {
			for (const s of STEPS.slice(0, -1)) if (!steps.includes(s)) violate(`published without ${s}`, ctx);
			if (steps.indexOf("publish") !== steps.length - 1) violate("something ran after publishing", ctx);
		}
		if (steps.includes("version")) for (const s of ["clean", "auth", "status", "test", "build"]) if (steps.indexOf(s) < 0 || steps.indexOf(s) > steps.indexOf("version")) violate(`versions were bumped before ${s}`, ctx);
		if (steps.includes("version") && published && steps.indexOf("version") > steps.indexOf("publish")) violate("published before versions were bumped", ctx);
		if (stop !== null && stop !== "publish" && !eof) {
			if (r.code === 0) violate(`exit 0 although ${stop} failed`, ctx);
			if (published) violate(`published although ${stop} failed`, ctx);
			for (const s of ["version", "install"] as const) if (s !== stop && STEPS.indexOf(s) > STEPS.indexOf(stop as never) && steps.includes(s)) violate(`${s} ran although ${stop} failed`, ctx);
		} else if (eof) {
			if (r.code === 0 && !published) violate("exit 0 although nothing was published", ctx);
		} else if (stop === "publish") {
			if (r.code === 0) violate("exit 0 although publishing failed", ctx);
			if (!published) violate("publishing was not attempted", ctx);
		} else {
			if (r.code !== 0) violate(`exit ${r.code} although every step succeeded`, ctx);
			if (!published) violate("exit 0 although nothing was published", ctx);
		}
		if (published) {
			const p = log.find((l) => l.step === "publish") as { key: string; otp: string | null };
			if (!/--tag[ =]beta\b/.test(p.key)) violate("published under another tag than beta", { ...ctx, p });
			if (/--dry-run/.test(p.key) !== dry) violate(dry ? "a dry run published for real" : "a real release was a dry run", { ...ctx, p });
			const want = otpBy === "flag" || otpBy === "env" || otpBy === "prompt" ? secret : null;
			if (!eof && (p.otp || null) !== want) violate(`published with one-time password ${p.otp}, given ${want}`, { ...ctx, p });
		}
		// The password is shown to nobody but the publish step.
		if (otpBy === "flag" || otpBy === "prompt") {
			const leak = log.find((l) => l.step !== "publish" && l.otp === secret);
			if (leak) violate(`the one-time password was given to ${leak.key}`, ctx);
		}
		if (otpBy === "flag" || otpBy === "env") {
			if (r.text.includes(secret)) violate("the one-time password was printed", ctx);
		}
		if (log.some((l) => l.key.includes(secret))) violate("the one-time password is on a command line", ctx);
		t.observe(published ? "published" : "refused");
		t.observe("commands", log.length);
		t.distinct(JSON.stringify([plan, otpBy, dry, ci]));
		t.sample({ plan, otpBy, dry, steps, code: r.code });
	};
	const faults: Array<[string | null, How, string | null, string | null]> = [[null, 0, null, null]];
	for (const s of STEPS) for (const how of HOWS) faults.push([s, how, null, null]);
	for (const d of [" M src/index.ts", "?? x", "A  y\n D z"]) faults.push([null, 0, d, null]);
	for (const m of ["git", "npm", "pnpm"]) faults.push([null, 0, null, m]);
	// Every fault once, dealt out over the shards; then random repetitions with other options.
	const mine = faults.filter((_, i) => i % t.job.shards === t.job.shard);
	await t.cases("every-fault", mine.length * t.scale(1, 6), async (rng, i, c) => {
		const [fail, how, dirty, missing] = mine[i % mine.length];
		await run(rng, i, { fail, how, dirty, missing }, c);
		t.observe("fault-points");
	});
	await t.cases("mixed", t.scale(10, 200), async (rng, i, c) => {
		const [fail, how] = rng.bool(0.4) ? [null, 0 as const] : rng.pick(faults.slice(1, 1 + STEPS.length * HOWS.length));
		await run(rng, i, { fail, how, dirty: rng.bool(0.15) ? rng.pick([" M a", "?? new.ts", "M  staged.ts", " D gone", "UU conflict", "R  a -> b"]) : null, missing: null }, c);
	});
});
