#!/usr/bin/env node
// Orchestrator: node harness/run.mjs <ID> [--tier quick|thorough] [--seed N] [--replay FILE]
//
// Bundles harness/checks/<id>.ts together with the CURRENT sources under
// /repo/src (nothing is cached, nothing is read from /repo/dist), runs the
// bundle in several fresh node processes ("shards", each with its own jsdom
// window and custom-element registry), merges what their monitors observed,
// rewrites evidence/<ID>.json and prints the verdict.
//
//   exit 0  held on everything explored (KNOWN-FINDING lines possible)
//   exit 1  a violation not listed in known-findings.json
//   exit 2  inconclusive / error of the check (never folded into 0 or 1)
import { spawn } from "node:child_process";
import { mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync, existsSync } from "node:fs";
import { createRequire } from "node:module";
import { tmpdir } from "node:os";
import { dirname, join, resolve } from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";

const HERE = dirname(fileURLToPath(import.meta.url));
const VERIF = resolve(HERE, "..");
const REPO = process.env.VERIF_REPO ?? "/repo";
const EVIDENCE = process.env.VERIF_EVIDENCE ?? join(VERIF, "evidence");

const argv = process.argv.slice(2);
const id = argv[0];
const opt = (name) => {
	const i = argv.indexOf(name);
	return i >= 0 ? argv[i + 1] : undefined;
};
if (!id || !/^[A-Z][0-9]{2,3}$/.test(id)) {
	console.error("usage: run.mjs <ID> [--tier quick|thorough] [--seed N] [--replay FILE]");
	process.exit(2);
}
const replayFile = opt("--replay");
const replay = replayFile ? JSON.parse(readFileSync(replayFile, "utf8")) : null;
const tier = replay?.tier ?? opt("--tier") ?? process.env.VERIF_TIER ?? "quick";
const seed = Number(replay?.seed ?? opt("--seed") ?? process.env.VERIF_SEED ?? 1) | 0;
const started = Date.now();

const meta = JSON.parse(readFileSync(join(HERE, "checks.json"), "utf8"))[id];
if (!meta) {
	console.error(`no check registered for ${id}`);
	process.exit(2);
}

function loadEsbuild() {
	const candidates = [
		join(REPO, "node_modules/.pnpm/node_modules/esbuild"),
		"/opt/veriftools/node/node_modules/esbuild",
	];
	const require = createRequire(join(REPO, "package.json"));
	for (const c of candidates) {
		try {
			return require(c);
		} catch {}
	}
	throw new Error("esbuild not found");
}

const scratch = mkdtempSync(join(tmpdir(), `verif-${id}-`));
const cleanup = () => rmSync(scratch, { recursive: true, force: true });
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));

const fail = (msg) => {
	console.error(`[${id}] INCONCLUSIVE: ${msg}`);
	process.exit(2);
};

async function bundle() {
	const esbuild = loadEsbuild();
	const out = join(scratch, "bundle.mjs");
	const repoPlugin = {
		name: "repo",
		setup(build) {
			// "@repo/..." is the code under test, always the working tree.
			build.onResolve({ filter: /^@repo\// }, async (a) => {
				const r = await build.resolve("./" + a.path.slice("@repo/".length), {
					resolveDir: REPO,
					kind: a.kind,
				});
				return r;
			});
			// Bare packages resolve from the repository's own node_modules, so
			// harness and code under test share one copy of each library.
			build.onResolve({ filter: /^[a-z@][^:]*$/ }, async (a) => {
				if (a.pluginData === "nested" || a.path.startsWith("@repo/")) return;
				if (a.path.startsWith("node:")) return { external: true };
				if (!a.importer.startsWith(VERIF)) return;
				const r = await build.resolve(a.path, {
					resolveDir: REPO,
					kind: a.kind,
					pluginData: "nested",
				});
				return r;
			});
		},
	};
	await esbuild.build({
		entryPoints: [join(HERE, "checks", `${meta.module ?? id.toLowerCase()}.ts`)],
		bundle: true,
		format: "esm",
		platform: "node",
		conditions: ["development", "module", "import"],
		mainFields: ["module", "main"],
		target: "node20",
		outfile: out,
		external: ["jsdom", "esbuild", "vite"],
		plugins: [repoPlugin],
		jsx: "automatic",
		logLevel: "silent",
		sourcemap: "inline",
		tsconfigRaw: { compilerOptions: { useDefineForClassFields: true, experimentalDecorators: true } },
		banner: {
			js: `import { createRequire as __cr } from "node:module"; const require = __cr(${JSON.stringify(join(REPO, "package.json"))});`,
		},
	});
	return out;
}

function runShard(bundlePath, shard, shards, watchdogMs) {
	return new Promise((res) => {
		const resultFile = join(scratch, `result-${shard}.json`);
		const job = {
			id,
			tier,
			seed,
			shard,
			shards,
			bundle: pathToFileURL(bundlePath).href,
			resultFile,
			scratch: join(scratch, `work-${shard}`),
			heartbeat: join(scratch, `beat-${shard}.json`),
			repo: REPO,
			verif: VERIF,
			env: meta.env ?? "dom",
			onlyCase: replay ? replay.case : null,
			onlyGroup: replay ? replay.group : null,
		};
		mkdirSync(job.scratch, { recursive: true });
		const jobFile = join(scratch, `job-${shard}.json`);
		writeFileSync(jobFile, JSON.stringify(job));
		const child = spawn(
			process.execPath,
			["--expose-gc", "--enable-source-maps", "--max-old-space-size=3000", join(HERE, "worker.mjs"), jobFile],
			{
				stdio: ["ignore", "pipe", "pipe"],
				env: { ...process.env, NODE_ENV: "test", NO_COLOR: "1", IGNITE_DIFF_ENABLED: undefined, ...(meta.environment ?? {}) },
				cwd: job.scratch,
			},
		);
		let err = "";
		let timedOut = false;
		const timer = setTimeout(() => {
			timedOut = true;
			child.kill("SIGKILL");
		}, watchdogMs);
		child.stdout.on("data", (d) => {
			if (process.env.VERIF_VERBOSE) process.stdout.write(d);
		});
		child.stderr.on("data", (d) => {
			err = (err + d).slice(-6000);
		});
		child.on("close", (code, signal) => {
			clearTimeout(timer);
			let result = null;
			if (existsSync(resultFile)) {
				try {
					result = JSON.parse(readFileSync(resultFile, "utf8"));
				} catch {}
			}
			let beat = null;
			try {
				beat = JSON.parse(readFileSync(job.heartbeat, "utf8"));
			} catch {}
			res({ shard, code, signal, timedOut, err, result, beat, at: Date.now() });
		});
	});
}

const known = existsSync(join(VERIF, "known-findings.json"))
	? JSON.parse(readFileSync(join(VERIF, "known-findings.json"), "utf8")).findings.filter(
			(f) => f.property === id && f.status === "known",
		)
	: [];

try {
	let bundlePath;
	try {
		bundlePath = await bundle();
	} catch (e) {
		fail(`bundle failed: ${e?.message ?? e}`);
	}
	const shards = replay ? replay.shards : (meta.shards?.[tier] ?? 8);
	const watchdog = (tier === "quick" ? 600 : 5400) * 1000;
	const list = replay ? [replay.shard] : Array.from({ length: shards }, (_, i) => i);
	const results = await Promise.all(list.map((s) => runShard(bundlePath, s, shards, watchdog)));

	let evaluations = 0;
	const distinct = new Set();
	const observed = {};
	const samples = [];
	const violations = [];
	const errors = [];
	for (const r of results) {
		// One case that ran for minutes (cases take milliseconds) or filled 3 GB of heap
		// is code under test that does not come to rest; anything else is our own trouble.
		if (r.beat && r.timedOut && r.at - r.beat.at > 150_000) {
			violations.push({ what: `${r.beat.group}#${r.beat.case} did not come to rest within ${Math.round((r.at - r.beat.at) / 1000)} s`, group: r.beat.group, case: r.beat.case, shard: r.shard, shards });
		} else if (r.beat && !r.result && /heap out of memory/.test(r.err)) {
			violations.push({ what: `${r.beat.group}#${r.beat.case} exhausted the heap`, group: r.beat.group, case: r.beat.case, shard: r.shard, shards });
		} else if (r.beat && !r.result && r.code === 13) {
			// node ran out of work with the case still waiting: something it awaits never settles
			violations.push({ what: `${r.beat.group}#${r.beat.case} waits for something that never settles`, group: r.beat.group, case: r.beat.case, shard: r.shard, shards });
		} else if (r.timedOut) errors.push(`shard ${r.shard}: watchdog`);
		else if (!r.result) errors.push(`shard ${r.shard}: died code=${r.code} signal=${r.signal} ${r.err}`);
		if (!r.result) continue;
		evaluations += r.result.evaluations;
		for (const d of r.result.distinct) distinct.add(d);
		for (const [k, v] of Object.entries(r.result.observed)) observed[k] = (observed[k] ?? 0) + v;
		for (const s of r.result.samples) if (samples.length < 4) samples.push(s);
		for (const v of r.result.violations) violations.push({ ...v, shard: r.shard, shards });
		if (r.result.error) errors.push(`shard ${r.shard}: ${r.result.error}`);
	}

	const fresh = [];
	const knownHits = new Map();
	for (const v of violations) {
		const k = known.find((f) => f.signature === v.signature);
		if (k) knownHits.set(k.signature, k);
		else fresh.push(v);
	}

	const evidence = {
		property: id,
		tier,
		seed,
		level: meta.level ?? "exploration",
		coverage: {
			evaluations,
			distinct_nontrivial: distinct.size,
			rule: meta.rule,
			samples,
			observed,
			shards: list.length,
		},
		assumptions: meta.assumptions ?? [],
		wall_s: (Date.now() - started) / 1000,
		violations: fresh.length,
	};
	if (errors.length) evidence.coverage.errors = errors.slice(0, 5);
	if (!replay) {
		mkdirSync(EVIDENCE, { recursive: true });
		writeFileSync(join(EVIDENCE, `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
	}

	for (const k of known) {
		if (knownHits.has(k.signature)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
	}

	if (fresh.length) {
		const first = fresh[0];
		const dir = join(EVIDENCE, "replays");
		mkdirSync(dir, { recursive: true });
		const path = join(dir, `${id}-s${seed}-${first.shard}-${first.group}-${first.case}.json`);
		writeFileSync(
			path,
			`${JSON.stringify({ property: id, tier, seed, shard: first.shard, shards, group: first.group, case: first.case, what: first.what, witness: first.witness, signature: first.signature, also: fresh.slice(1, 6).map((v) => v.what) }, null, 1)}\n`,
		);
		console.log(`[${id}] ${first.what}`);
		console.log(`[${id}] ${fresh.length} violating observation(s) in ${evaluations} evaluations`);
		console.log(`VIOLATION property=${id} replay=${path}`);
		cleanup();
		process.exit(1);
	}
	if (errors.length) fail(errors.join("; "));
	if (!replay) {
		for (const [key, min] of Object.entries(meta.minimum ?? {})) {
			if ((observed[key] ?? 0) < min) fail(`monitor observed too little: ${key}=${observed[key] ?? 0} < ${min}`);
		}
		if (evaluations === 0 || distinct.size === 0) fail("monitor observed nothing");
	}
	console.log(
		`[${id}] held: ${evaluations} evaluations, ${distinct.size} distinct non-trivial, ${JSON.stringify(observed)} (${evidence.wall_s.toFixed(1)} s)`,
	);
	cleanup();
	process.exit(0);
} catch (e) {
	fail(e?.stack ?? String(e));
}
